//! Written by gen.py.
#[cfg(feature = "uleq")]
mod uleq {
    use crate::spec::*;
    use bp3d_proto::util::FixedSize;
    #[kani::proof]
    fn o0_g0() {
        use crate::uleq::*;
        const N: usize = 8;
        assert!(<S0_0<()> as FixedSize>::SIZE == N && SIZE_S0_0 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S0_0::new(&b[..]);
        {
            let raw = field::<false>(&b[0..1], 0, 1);
            assert!(s.get_raw_f1() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f1() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S0_0::new(&mut c[..]); m.set_f1(v); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 0, 1, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_0::new(&mut c[..]); m.set_raw_f1(r); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 0, 1, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[1..2], 0, 3);
            assert!(s.get_raw_f3() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f3() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S0_0::new(&mut c[..]); m.set_f3(v); }
            assert!(updated::<false>(&b[1..2], &c[1..2], 0, 3, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_0::new(&mut c[..]); m.set_raw_f3(r); }
            assert!(updated::<false>(&b[1..2], &c[1..2], 0, 3, r as u64) && others(&b, &c, 1, 2), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[2..3], 0, 7);
            assert!(s.get_raw_f7() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f7() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S0_0::new(&mut c[..]); m.set_f7(v); }
            assert!(updated::<false>(&b[2..3], &c[2..3], 0, 7, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_0::new(&mut c[..]); m.set_raw_f7(r); }
            assert!(updated::<false>(&b[2..3], &c[2..3], 0, 7, r as u64) && others(&b, &c, 2, 3), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[3..4], 0, 8);
            assert!(s.get_raw_f8() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f8() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S0_0::new(&mut c[..]); m.set_f8(v); }
            assert!(updated::<false>(&b[3..4], &c[3..4], 0, 8, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_0::new(&mut c[..]); m.set_raw_f8(r); }
            assert!(updated::<false>(&b[3..4], &c[3..4], 0, 8, r as u64) && others(&b, &c, 3, 4), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[4..6], 0, 9);
            assert!(s.get_raw_f9() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f9() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S0_0::new(&mut c[..]); m.set_f9(v); }
            assert!(updated::<false>(&b[4..6], &c[4..6], 0, 9, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_0::new(&mut c[..]); m.set_raw_f9(r); }
            assert!(updated::<false>(&b[4..6], &c[4..6], 0, 9, r as u64) && others(&b, &c, 4, 6), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[6..8], 0, 16);
            assert!(s.get_raw_f16() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f16() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S0_0::new(&mut c[..]); m.set_f16(v); }
            assert!(updated::<false>(&b[6..8], &c[6..8], 0, 16, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_0::new(&mut c[..]); m.set_raw_f16(r); }
            assert!(updated::<false>(&b[6..8], &c[6..8], 0, 16, r as u64) && others(&b, &c, 6, 8), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o0_g1() {
        use crate::uleq::*;
        const N: usize = 19;
        assert!(<S0_1<()> as FixedSize>::SIZE == N && SIZE_S0_1 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S0_1::new(&b[..]);
        {
            let raw = field::<false>(&b[0..3], 0, 17);
            assert!(s.get_raw_f17() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f17() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S0_1::new(&mut c[..]); m.set_f17(v); }
            assert!(updated::<false>(&b[0..3], &c[0..3], 0, 17, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_1::new(&mut c[..]); m.set_raw_f17(r); }
            assert!(updated::<false>(&b[0..3], &c[0..3], 0, 17, r as u64) && others(&b, &c, 0, 3), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[3..6], 0, 24);
            assert!(s.get_raw_f24() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f24() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S0_1::new(&mut c[..]); m.set_f24(v); }
            assert!(updated::<false>(&b[3..6], &c[3..6], 0, 24, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_1::new(&mut c[..]); m.set_raw_f24(r); }
            assert!(updated::<false>(&b[3..6], &c[3..6], 0, 24, r as u64) && others(&b, &c, 3, 6), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[6..10], 0, 25);
            assert!(s.get_raw_f25() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f25() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S0_1::new(&mut c[..]); m.set_f25(v); }
            assert!(updated::<false>(&b[6..10], &c[6..10], 0, 25, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_1::new(&mut c[..]); m.set_raw_f25(r); }
            assert!(updated::<false>(&b[6..10], &c[6..10], 0, 25, r as u64) && others(&b, &c, 6, 10), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[10..14], 0, 32);
            assert!(s.get_raw_f32() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f32() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S0_1::new(&mut c[..]); m.set_f32(v); }
            assert!(updated::<false>(&b[10..14], &c[10..14], 0, 32, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 14), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_1::new(&mut c[..]); m.set_raw_f32(r); }
            assert!(updated::<false>(&b[10..14], &c[10..14], 0, 32, r as u64) && others(&b, &c, 10, 14), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[14..19], 0, 33);
            assert!(s.get_raw_f33() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f33() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S0_1::new(&mut c[..]); m.set_f33(v); }
            assert!(updated::<false>(&b[14..19], &c[14..19], 0, 33, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 14, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_1::new(&mut c[..]); m.set_raw_f33(r); }
            assert!(updated::<false>(&b[14..19], &c[14..19], 0, 33, r as u64) && others(&b, &c, 14, 19), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o0_g2() {
        use crate::uleq::*;
        const N: usize = 36;
        assert!(<S0_2<()> as FixedSize>::SIZE == N && SIZE_S0_2 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S0_2::new(&b[..]);
        {
            let raw = field::<false>(&b[0..5], 0, 40);
            assert!(s.get_raw_f40() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f40() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S0_2::new(&mut c[..]); m.set_f40(v); }
            assert!(updated::<false>(&b[0..5], &c[0..5], 0, 40, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_2::new(&mut c[..]); m.set_raw_f40(r); }
            assert!(updated::<false>(&b[0..5], &c[0..5], 0, 40, r as u64) && others(&b, &c, 0, 5), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[5..12], 0, 56);
            assert!(s.get_raw_f56() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f56() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S0_2::new(&mut c[..]); m.set_f56(v); }
            assert!(updated::<false>(&b[5..12], &c[5..12], 0, 56, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 12), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_2::new(&mut c[..]); m.set_raw_f56(r); }
            assert!(updated::<false>(&b[5..12], &c[5..12], 0, 56, r as u64) && others(&b, &c, 5, 12), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[12..20], 0, 57);
            assert!(s.get_raw_f57() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f57() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S0_2::new(&mut c[..]); m.set_f57(v); }
            assert!(updated::<false>(&b[12..20], &c[12..20], 0, 57, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_2::new(&mut c[..]); m.set_raw_f57(r); }
            assert!(updated::<false>(&b[12..20], &c[12..20], 0, 57, r as u64) && others(&b, &c, 12, 20), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[20..28], 0, 63);
            assert!(s.get_raw_f63() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f63() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S0_2::new(&mut c[..]); m.set_f63(v); }
            assert!(updated::<false>(&b[20..28], &c[20..28], 0, 63, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 28), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_2::new(&mut c[..]); m.set_raw_f63(r); }
            assert!(updated::<false>(&b[20..28], &c[20..28], 0, 63, r as u64) && others(&b, &c, 20, 28), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[28..36], 0, 64);
            assert!(s.get_raw_f64() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f64() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S0_2::new(&mut c[..]); m.set_f64(v); }
            assert!(updated::<false>(&b[28..36], &c[28..36], 0, 64, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 28, 36), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_2::new(&mut c[..]); m.set_raw_f64(r); }
            assert!(updated::<false>(&b[28..36], &c[28..36], 0, 64, r as u64) && others(&b, &c, 28, 36), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o1_g0() {
        use crate::uleq::*;
        const N: usize = 9;
        assert!(<S1_0<()> as FixedSize>::SIZE == N && SIZE_S1_0 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S1_0::new(&b[..]);
        {
            let raw = field::<false>(&b[0..1], 1, 1);
            assert!(s.get_raw_f1() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f1() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S1_0::new(&mut c[..]); m.set_f1(v); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 1, 1, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_0::new(&mut c[..]); m.set_raw_f1(r); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 1, 1, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[1..2], 1, 3);
            assert!(s.get_raw_f3() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f3() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S1_0::new(&mut c[..]); m.set_f3(v); }
            assert!(updated::<false>(&b[1..2], &c[1..2], 1, 3, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_0::new(&mut c[..]); m.set_raw_f3(r); }
            assert!(updated::<false>(&b[1..2], &c[1..2], 1, 3, r as u64) && others(&b, &c, 1, 2), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[2..3], 1, 7);
            assert!(s.get_raw_f7() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f7() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S1_0::new(&mut c[..]); m.set_f7(v); }
            assert!(updated::<false>(&b[2..3], &c[2..3], 1, 7, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_0::new(&mut c[..]); m.set_raw_f7(r); }
            assert!(updated::<false>(&b[2..3], &c[2..3], 1, 7, r as u64) && others(&b, &c, 2, 3), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[3..5], 1, 8);
            assert!(s.get_raw_f8() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f8() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S1_0::new(&mut c[..]); m.set_f8(v); }
            assert!(updated::<false>(&b[3..5], &c[3..5], 1, 8, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_0::new(&mut c[..]); m.set_raw_f8(r); }
            assert!(updated::<false>(&b[3..5], &c[3..5], 1, 8, r as u64) && others(&b, &c, 3, 5), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[4..6], 1, 9);
            assert!(s.get_raw_f9() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f9() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S1_0::new(&mut c[..]); m.set_f9(v); }
            assert!(updated::<false>(&b[4..6], &c[4..6], 1, 9, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_0::new(&mut c[..]); m.set_raw_f9(r); }
            assert!(updated::<false>(&b[4..6], &c[4..6], 1, 9, r as u64) && others(&b, &c, 4, 6), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[6..9], 1, 16);
            assert!(s.get_raw_f16() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f16() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S1_0::new(&mut c[..]); m.set_f16(v); }
            assert!(updated::<false>(&b[6..9], &c[6..9], 1, 16, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 9), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_0::new(&mut c[..]); m.set_raw_f16(r); }
            assert!(updated::<false>(&b[6..9], &c[6..9], 1, 16, r as u64) && others(&b, &c, 6, 9), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o1_g1() {
        use crate::uleq::*;
        const N: usize = 19;
        assert!(<S1_1<()> as FixedSize>::SIZE == N && SIZE_S1_1 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S1_1::new(&b[..]);
        {
            let raw = field::<false>(&b[0..3], 1, 17);
            assert!(s.get_raw_f17() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f17() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S1_1::new(&mut c[..]); m.set_f17(v); }
            assert!(updated::<false>(&b[0..3], &c[0..3], 1, 17, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_1::new(&mut c[..]); m.set_raw_f17(r); }
            assert!(updated::<false>(&b[0..3], &c[0..3], 1, 17, r as u64) && others(&b, &c, 0, 3), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[3..7], 1, 24);
            assert!(s.get_raw_f24() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f24() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S1_1::new(&mut c[..]); m.set_f24(v); }
            assert!(updated::<false>(&b[3..7], &c[3..7], 1, 24, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_1::new(&mut c[..]); m.set_raw_f24(r); }
            assert!(updated::<false>(&b[3..7], &c[3..7], 1, 24, r as u64) && others(&b, &c, 3, 7), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[6..10], 1, 25);
            assert!(s.get_raw_f25() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f25() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S1_1::new(&mut c[..]); m.set_f25(v); }
            assert!(updated::<false>(&b[6..10], &c[6..10], 1, 25, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_1::new(&mut c[..]); m.set_raw_f25(r); }
            assert!(updated::<false>(&b[6..10], &c[6..10], 1, 25, r as u64) && others(&b, &c, 6, 10), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[10..15], 1, 32);
            assert!(s.get_raw_f32() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f32() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S1_1::new(&mut c[..]); m.set_f32(v); }
            assert!(updated::<false>(&b[10..15], &c[10..15], 1, 32, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 15), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_1::new(&mut c[..]); m.set_raw_f32(r); }
            assert!(updated::<false>(&b[10..15], &c[10..15], 1, 32, r as u64) && others(&b, &c, 10, 15), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[14..19], 1, 33);
            assert!(s.get_raw_f33() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f33() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S1_1::new(&mut c[..]); m.set_f33(v); }
            assert!(updated::<false>(&b[14..19], &c[14..19], 1, 33, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 14, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_1::new(&mut c[..]); m.set_raw_f33(r); }
            assert!(updated::<false>(&b[14..19], &c[14..19], 1, 33, r as u64) && others(&b, &c, 14, 19), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o1_g2() {
        use crate::uleq::*;
        const N: usize = 37;
        assert!(<S1_2<()> as FixedSize>::SIZE == N && SIZE_S1_2 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S1_2::new(&b[..]);
        {
            let raw = field::<false>(&b[0..6], 1, 40);
            assert!(s.get_raw_f40() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f40() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S1_2::new(&mut c[..]); m.set_f40(v); }
            assert!(updated::<false>(&b[0..6], &c[0..6], 1, 40, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_2::new(&mut c[..]); m.set_raw_f40(r); }
            assert!(updated::<false>(&b[0..6], &c[0..6], 1, 40, r as u64) && others(&b, &c, 0, 6), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[5..13], 1, 56);
            assert!(s.get_raw_f56() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f56() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S1_2::new(&mut c[..]); m.set_f56(v); }
            assert!(updated::<false>(&b[5..13], &c[5..13], 1, 56, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_2::new(&mut c[..]); m.set_raw_f56(r); }
            assert!(updated::<false>(&b[5..13], &c[5..13], 1, 56, r as u64) && others(&b, &c, 5, 13), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[12..20], 1, 57);
            assert!(s.get_raw_f57() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f57() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S1_2::new(&mut c[..]); m.set_f57(v); }
            assert!(updated::<false>(&b[12..20], &c[12..20], 1, 57, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_2::new(&mut c[..]); m.set_raw_f57(r); }
            assert!(updated::<false>(&b[12..20], &c[12..20], 1, 57, r as u64) && others(&b, &c, 12, 20), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[20..28], 1, 63);
            assert!(s.get_raw_f63() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f63() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S1_2::new(&mut c[..]); m.set_f63(v); }
            assert!(updated::<false>(&b[20..28], &c[20..28], 1, 63, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 28), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_2::new(&mut c[..]); m.set_raw_f63(r); }
            assert!(updated::<false>(&b[20..28], &c[20..28], 1, 63, r as u64) && others(&b, &c, 20, 28), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[28..37], 1, 64);
            assert!(s.get_raw_f64() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f64() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S1_2::new(&mut c[..]); m.set_f64(v); }
            assert!(updated::<false>(&b[28..37], &c[28..37], 1, 64, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 28, 37), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_2::new(&mut c[..]); m.set_raw_f64(r); }
            assert!(updated::<false>(&b[28..37], &c[28..37], 1, 64, r as u64) && others(&b, &c, 28, 37), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o2_g0() {
        use crate::uleq::*;
        const N: usize = 9;
        assert!(<S2_0<()> as FixedSize>::SIZE == N && SIZE_S2_0 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S2_0::new(&b[..]);
        {
            let raw = field::<false>(&b[0..1], 2, 1);
            assert!(s.get_raw_f1() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f1() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S2_0::new(&mut c[..]); m.set_f1(v); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 2, 1, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_0::new(&mut c[..]); m.set_raw_f1(r); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 2, 1, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[1..2], 2, 3);
            assert!(s.get_raw_f3() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f3() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S2_0::new(&mut c[..]); m.set_f3(v); }
            assert!(updated::<false>(&b[1..2], &c[1..2], 2, 3, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_0::new(&mut c[..]); m.set_raw_f3(r); }
            assert!(updated::<false>(&b[1..2], &c[1..2], 2, 3, r as u64) && others(&b, &c, 1, 2), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[2..4], 2, 7);
            assert!(s.get_raw_f7() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f7() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S2_0::new(&mut c[..]); m.set_f7(v); }
            assert!(updated::<false>(&b[2..4], &c[2..4], 2, 7, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_0::new(&mut c[..]); m.set_raw_f7(r); }
            assert!(updated::<false>(&b[2..4], &c[2..4], 2, 7, r as u64) && others(&b, &c, 2, 4), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[3..5], 2, 8);
            assert!(s.get_raw_f8() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f8() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S2_0::new(&mut c[..]); m.set_f8(v); }
            assert!(updated::<false>(&b[3..5], &c[3..5], 2, 8, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_0::new(&mut c[..]); m.set_raw_f8(r); }
            assert!(updated::<false>(&b[3..5], &c[3..5], 2, 8, r as u64) && others(&b, &c, 3, 5), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[4..6], 2, 9);
            assert!(s.get_raw_f9() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f9() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S2_0::new(&mut c[..]); m.set_f9(v); }
            assert!(updated::<false>(&b[4..6], &c[4..6], 2, 9, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_0::new(&mut c[..]); m.set_raw_f9(r); }
            assert!(updated::<false>(&b[4..6], &c[4..6], 2, 9, r as u64) && others(&b, &c, 4, 6), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[6..9], 2, 16);
            assert!(s.get_raw_f16() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f16() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S2_0::new(&mut c[..]); m.set_f16(v); }
            assert!(updated::<false>(&b[6..9], &c[6..9], 2, 16, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 9), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_0::new(&mut c[..]); m.set_raw_f16(r); }
            assert!(updated::<false>(&b[6..9], &c[6..9], 2, 16, r as u64) && others(&b, &c, 6, 9), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o2_g1() {
        use crate::uleq::*;
        const N: usize = 19;
        assert!(<S2_1<()> as FixedSize>::SIZE == N && SIZE_S2_1 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S2_1::new(&b[..]);
        {
            let raw = field::<false>(&b[0..3], 2, 17);
            assert!(s.get_raw_f17() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f17() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S2_1::new(&mut c[..]); m.set_f17(v); }
            assert!(updated::<false>(&b[0..3], &c[0..3], 2, 17, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_1::new(&mut c[..]); m.set_raw_f17(r); }
            assert!(updated::<false>(&b[0..3], &c[0..3], 2, 17, r as u64) && others(&b, &c, 0, 3), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[3..7], 2, 24);
            assert!(s.get_raw_f24() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f24() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S2_1::new(&mut c[..]); m.set_f24(v); }
            assert!(updated::<false>(&b[3..7], &c[3..7], 2, 24, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_1::new(&mut c[..]); m.set_raw_f24(r); }
            assert!(updated::<false>(&b[3..7], &c[3..7], 2, 24, r as u64) && others(&b, &c, 3, 7), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[6..10], 2, 25);
            assert!(s.get_raw_f25() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f25() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S2_1::new(&mut c[..]); m.set_f25(v); }
            assert!(updated::<false>(&b[6..10], &c[6..10], 2, 25, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_1::new(&mut c[..]); m.set_raw_f25(r); }
            assert!(updated::<false>(&b[6..10], &c[6..10], 2, 25, r as u64) && others(&b, &c, 6, 10), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[10..15], 2, 32);
            assert!(s.get_raw_f32() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f32() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S2_1::new(&mut c[..]); m.set_f32(v); }
            assert!(updated::<false>(&b[10..15], &c[10..15], 2, 32, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 15), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_1::new(&mut c[..]); m.set_raw_f32(r); }
            assert!(updated::<false>(&b[10..15], &c[10..15], 2, 32, r as u64) && others(&b, &c, 10, 15), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[14..19], 2, 33);
            assert!(s.get_raw_f33() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f33() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S2_1::new(&mut c[..]); m.set_f33(v); }
            assert!(updated::<false>(&b[14..19], &c[14..19], 2, 33, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 14, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_1::new(&mut c[..]); m.set_raw_f33(r); }
            assert!(updated::<false>(&b[14..19], &c[14..19], 2, 33, r as u64) && others(&b, &c, 14, 19), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o2_g2() {
        use crate::uleq::*;
        const N: usize = 37;
        assert!(<S2_2<()> as FixedSize>::SIZE == N && SIZE_S2_2 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S2_2::new(&b[..]);
        {
            let raw = field::<false>(&b[0..6], 2, 40);
            assert!(s.get_raw_f40() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f40() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S2_2::new(&mut c[..]); m.set_f40(v); }
            assert!(updated::<false>(&b[0..6], &c[0..6], 2, 40, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_2::new(&mut c[..]); m.set_raw_f40(r); }
            assert!(updated::<false>(&b[0..6], &c[0..6], 2, 40, r as u64) && others(&b, &c, 0, 6), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[5..13], 2, 56);
            assert!(s.get_raw_f56() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f56() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S2_2::new(&mut c[..]); m.set_f56(v); }
            assert!(updated::<false>(&b[5..13], &c[5..13], 2, 56, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_2::new(&mut c[..]); m.set_raw_f56(r); }
            assert!(updated::<false>(&b[5..13], &c[5..13], 2, 56, r as u64) && others(&b, &c, 5, 13), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[12..20], 2, 57);
            assert!(s.get_raw_f57() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f57() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S2_2::new(&mut c[..]); m.set_f57(v); }
            assert!(updated::<false>(&b[12..20], &c[12..20], 2, 57, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_2::new(&mut c[..]); m.set_raw_f57(r); }
            assert!(updated::<false>(&b[12..20], &c[12..20], 2, 57, r as u64) && others(&b, &c, 12, 20), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[20..29], 2, 63);
            assert!(s.get_raw_f63() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f63() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S2_2::new(&mut c[..]); m.set_f63(v); }
            assert!(updated::<false>(&b[20..29], &c[20..29], 2, 63, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_2::new(&mut c[..]); m.set_raw_f63(r); }
            assert!(updated::<false>(&b[20..29], &c[20..29], 2, 63, r as u64) && others(&b, &c, 20, 29), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[28..37], 2, 64);
            assert!(s.get_raw_f64() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f64() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S2_2::new(&mut c[..]); m.set_f64(v); }
            assert!(updated::<false>(&b[28..37], &c[28..37], 2, 64, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 28, 37), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_2::new(&mut c[..]); m.set_raw_f64(r); }
            assert!(updated::<false>(&b[28..37], &c[28..37], 2, 64, r as u64) && others(&b, &c, 28, 37), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o3_g0() {
        use crate::uleq::*;
        const N: usize = 9;
        assert!(<S3_0<()> as FixedSize>::SIZE == N && SIZE_S3_0 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S3_0::new(&b[..]);
        {
            let raw = field::<false>(&b[0..1], 3, 1);
            assert!(s.get_raw_f1() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f1() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S3_0::new(&mut c[..]); m.set_f1(v); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 3, 1, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_0::new(&mut c[..]); m.set_raw_f1(r); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 3, 1, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[1..2], 3, 3);
            assert!(s.get_raw_f3() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f3() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S3_0::new(&mut c[..]); m.set_f3(v); }
            assert!(updated::<false>(&b[1..2], &c[1..2], 3, 3, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_0::new(&mut c[..]); m.set_raw_f3(r); }
            assert!(updated::<false>(&b[1..2], &c[1..2], 3, 3, r as u64) && others(&b, &c, 1, 2), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[2..4], 3, 7);
            assert!(s.get_raw_f7() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f7() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S3_0::new(&mut c[..]); m.set_f7(v); }
            assert!(updated::<false>(&b[2..4], &c[2..4], 3, 7, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_0::new(&mut c[..]); m.set_raw_f7(r); }
            assert!(updated::<false>(&b[2..4], &c[2..4], 3, 7, r as u64) && others(&b, &c, 2, 4), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[3..5], 3, 8);
            assert!(s.get_raw_f8() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f8() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S3_0::new(&mut c[..]); m.set_f8(v); }
            assert!(updated::<false>(&b[3..5], &c[3..5], 3, 8, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_0::new(&mut c[..]); m.set_raw_f8(r); }
            assert!(updated::<false>(&b[3..5], &c[3..5], 3, 8, r as u64) && others(&b, &c, 3, 5), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[4..6], 3, 9);
            assert!(s.get_raw_f9() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f9() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S3_0::new(&mut c[..]); m.set_f9(v); }
            assert!(updated::<false>(&b[4..6], &c[4..6], 3, 9, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_0::new(&mut c[..]); m.set_raw_f9(r); }
            assert!(updated::<false>(&b[4..6], &c[4..6], 3, 9, r as u64) && others(&b, &c, 4, 6), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[6..9], 3, 16);
            assert!(s.get_raw_f16() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f16() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S3_0::new(&mut c[..]); m.set_f16(v); }
            assert!(updated::<false>(&b[6..9], &c[6..9], 3, 16, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 9), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_0::new(&mut c[..]); m.set_raw_f16(r); }
            assert!(updated::<false>(&b[6..9], &c[6..9], 3, 16, r as u64) && others(&b, &c, 6, 9), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o3_g1() {
        use crate::uleq::*;
        const N: usize = 19;
        assert!(<S3_1<()> as FixedSize>::SIZE == N && SIZE_S3_1 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S3_1::new(&b[..]);
        {
            let raw = field::<false>(&b[0..3], 3, 17);
            assert!(s.get_raw_f17() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f17() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S3_1::new(&mut c[..]); m.set_f17(v); }
            assert!(updated::<false>(&b[0..3], &c[0..3], 3, 17, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_1::new(&mut c[..]); m.set_raw_f17(r); }
            assert!(updated::<false>(&b[0..3], &c[0..3], 3, 17, r as u64) && others(&b, &c, 0, 3), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[3..7], 3, 24);
            assert!(s.get_raw_f24() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f24() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S3_1::new(&mut c[..]); m.set_f24(v); }
            assert!(updated::<false>(&b[3..7], &c[3..7], 3, 24, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_1::new(&mut c[..]); m.set_raw_f24(r); }
            assert!(updated::<false>(&b[3..7], &c[3..7], 3, 24, r as u64) && others(&b, &c, 3, 7), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[6..10], 3, 25);
            assert!(s.get_raw_f25() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f25() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S3_1::new(&mut c[..]); m.set_f25(v); }
            assert!(updated::<false>(&b[6..10], &c[6..10], 3, 25, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_1::new(&mut c[..]); m.set_raw_f25(r); }
            assert!(updated::<false>(&b[6..10], &c[6..10], 3, 25, r as u64) && others(&b, &c, 6, 10), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[10..15], 3, 32);
            assert!(s.get_raw_f32() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f32() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S3_1::new(&mut c[..]); m.set_f32(v); }
            assert!(updated::<false>(&b[10..15], &c[10..15], 3, 32, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 15), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_1::new(&mut c[..]); m.set_raw_f32(r); }
            assert!(updated::<false>(&b[10..15], &c[10..15], 3, 32, r as u64) && others(&b, &c, 10, 15), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[14..19], 3, 33);
            assert!(s.get_raw_f33() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f33() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S3_1::new(&mut c[..]); m.set_f33(v); }
            assert!(updated::<false>(&b[14..19], &c[14..19], 3, 33, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 14, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_1::new(&mut c[..]); m.set_raw_f33(r); }
            assert!(updated::<false>(&b[14..19], &c[14..19], 3, 33, r as u64) && others(&b, &c, 14, 19), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o3_g2() {
        use crate::uleq::*;
        const N: usize = 37;
        assert!(<S3_2<()> as FixedSize>::SIZE == N && SIZE_S3_2 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S3_2::new(&b[..]);
        {
            let raw = field::<false>(&b[0..6], 3, 40);
            assert!(s.get_raw_f40() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f40() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S3_2::new(&mut c[..]); m.set_f40(v); }
            assert!(updated::<false>(&b[0..6], &c[0..6], 3, 40, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_2::new(&mut c[..]); m.set_raw_f40(r); }
            assert!(updated::<false>(&b[0..6], &c[0..6], 3, 40, r as u64) && others(&b, &c, 0, 6), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[5..13], 3, 56);
            assert!(s.get_raw_f56() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f56() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S3_2::new(&mut c[..]); m.set_f56(v); }
            assert!(updated::<false>(&b[5..13], &c[5..13], 3, 56, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_2::new(&mut c[..]); m.set_raw_f56(r); }
            assert!(updated::<false>(&b[5..13], &c[5..13], 3, 56, r as u64) && others(&b, &c, 5, 13), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[12..20], 3, 57);
            assert!(s.get_raw_f57() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f57() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S3_2::new(&mut c[..]); m.set_f57(v); }
            assert!(updated::<false>(&b[12..20], &c[12..20], 3, 57, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_2::new(&mut c[..]); m.set_raw_f57(r); }
            assert!(updated::<false>(&b[12..20], &c[12..20], 3, 57, r as u64) && others(&b, &c, 12, 20), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[20..29], 3, 63);
            assert!(s.get_raw_f63() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f63() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S3_2::new(&mut c[..]); m.set_f63(v); }
            assert!(updated::<false>(&b[20..29], &c[20..29], 3, 63, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_2::new(&mut c[..]); m.set_raw_f63(r); }
            assert!(updated::<false>(&b[20..29], &c[20..29], 3, 63, r as u64) && others(&b, &c, 20, 29), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[28..37], 3, 64);
            assert!(s.get_raw_f64() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f64() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S3_2::new(&mut c[..]); m.set_f64(v); }
            assert!(updated::<false>(&b[28..37], &c[28..37], 3, 64, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 28, 37), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_2::new(&mut c[..]); m.set_raw_f64(r); }
            assert!(updated::<false>(&b[28..37], &c[28..37], 3, 64, r as u64) && others(&b, &c, 28, 37), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o4_g0() {
        use crate::uleq::*;
        const N: usize = 9;
        assert!(<S4_0<()> as FixedSize>::SIZE == N && SIZE_S4_0 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S4_0::new(&b[..]);
        {
            let raw = field::<false>(&b[0..1], 4, 1);
            assert!(s.get_raw_f1() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f1() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S4_0::new(&mut c[..]); m.set_f1(v); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 4, 1, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_0::new(&mut c[..]); m.set_raw_f1(r); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 4, 1, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[1..2], 4, 3);
            assert!(s.get_raw_f3() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f3() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S4_0::new(&mut c[..]); m.set_f3(v); }
            assert!(updated::<false>(&b[1..2], &c[1..2], 4, 3, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_0::new(&mut c[..]); m.set_raw_f3(r); }
            assert!(updated::<false>(&b[1..2], &c[1..2], 4, 3, r as u64) && others(&b, &c, 1, 2), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[2..4], 4, 7);
            assert!(s.get_raw_f7() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f7() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S4_0::new(&mut c[..]); m.set_f7(v); }
            assert!(updated::<false>(&b[2..4], &c[2..4], 4, 7, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_0::new(&mut c[..]); m.set_raw_f7(r); }
            assert!(updated::<false>(&b[2..4], &c[2..4], 4, 7, r as u64) && others(&b, &c, 2, 4), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[3..5], 4, 8);
            assert!(s.get_raw_f8() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f8() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S4_0::new(&mut c[..]); m.set_f8(v); }
            assert!(updated::<false>(&b[3..5], &c[3..5], 4, 8, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_0::new(&mut c[..]); m.set_raw_f8(r); }
            assert!(updated::<false>(&b[3..5], &c[3..5], 4, 8, r as u64) && others(&b, &c, 3, 5), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[4..6], 4, 9);
            assert!(s.get_raw_f9() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f9() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S4_0::new(&mut c[..]); m.set_f9(v); }
            assert!(updated::<false>(&b[4..6], &c[4..6], 4, 9, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_0::new(&mut c[..]); m.set_raw_f9(r); }
            assert!(updated::<false>(&b[4..6], &c[4..6], 4, 9, r as u64) && others(&b, &c, 4, 6), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[6..9], 4, 16);
            assert!(s.get_raw_f16() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f16() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S4_0::new(&mut c[..]); m.set_f16(v); }
            assert!(updated::<false>(&b[6..9], &c[6..9], 4, 16, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 9), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_0::new(&mut c[..]); m.set_raw_f16(r); }
            assert!(updated::<false>(&b[6..9], &c[6..9], 4, 16, r as u64) && others(&b, &c, 6, 9), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o4_g1() {
        use crate::uleq::*;
        const N: usize = 19;
        assert!(<S4_1<()> as FixedSize>::SIZE == N && SIZE_S4_1 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S4_1::new(&b[..]);
        {
            let raw = field::<false>(&b[0..3], 4, 17);
            assert!(s.get_raw_f17() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f17() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S4_1::new(&mut c[..]); m.set_f17(v); }
            assert!(updated::<false>(&b[0..3], &c[0..3], 4, 17, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_1::new(&mut c[..]); m.set_raw_f17(r); }
            assert!(updated::<false>(&b[0..3], &c[0..3], 4, 17, r as u64) && others(&b, &c, 0, 3), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[3..7], 4, 24);
            assert!(s.get_raw_f24() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f24() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S4_1::new(&mut c[..]); m.set_f24(v); }
            assert!(updated::<false>(&b[3..7], &c[3..7], 4, 24, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_1::new(&mut c[..]); m.set_raw_f24(r); }
            assert!(updated::<false>(&b[3..7], &c[3..7], 4, 24, r as u64) && others(&b, &c, 3, 7), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[6..10], 4, 25);
            assert!(s.get_raw_f25() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f25() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S4_1::new(&mut c[..]); m.set_f25(v); }
            assert!(updated::<false>(&b[6..10], &c[6..10], 4, 25, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_1::new(&mut c[..]); m.set_raw_f25(r); }
            assert!(updated::<false>(&b[6..10], &c[6..10], 4, 25, r as u64) && others(&b, &c, 6, 10), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[10..15], 4, 32);
            assert!(s.get_raw_f32() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f32() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S4_1::new(&mut c[..]); m.set_f32(v); }
            assert!(updated::<false>(&b[10..15], &c[10..15], 4, 32, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 15), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_1::new(&mut c[..]); m.set_raw_f32(r); }
            assert!(updated::<false>(&b[10..15], &c[10..15], 4, 32, r as u64) && others(&b, &c, 10, 15), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[14..19], 4, 33);
            assert!(s.get_raw_f33() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f33() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S4_1::new(&mut c[..]); m.set_f33(v); }
            assert!(updated::<false>(&b[14..19], &c[14..19], 4, 33, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 14, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_1::new(&mut c[..]); m.set_raw_f33(r); }
            assert!(updated::<false>(&b[14..19], &c[14..19], 4, 33, r as u64) && others(&b, &c, 14, 19), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o4_g2() {
        use crate::uleq::*;
        const N: usize = 37;
        assert!(<S4_2<()> as FixedSize>::SIZE == N && SIZE_S4_2 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S4_2::new(&b[..]);
        {
            let raw = field::<false>(&b[0..6], 4, 40);
            assert!(s.get_raw_f40() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f40() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S4_2::new(&mut c[..]); m.set_f40(v); }
            assert!(updated::<false>(&b[0..6], &c[0..6], 4, 40, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_2::new(&mut c[..]); m.set_raw_f40(r); }
            assert!(updated::<false>(&b[0..6], &c[0..6], 4, 40, r as u64) && others(&b, &c, 0, 6), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[5..13], 4, 56);
            assert!(s.get_raw_f56() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f56() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S4_2::new(&mut c[..]); m.set_f56(v); }
            assert!(updated::<false>(&b[5..13], &c[5..13], 4, 56, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_2::new(&mut c[..]); m.set_raw_f56(r); }
            assert!(updated::<false>(&b[5..13], &c[5..13], 4, 56, r as u64) && others(&b, &c, 5, 13), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[12..20], 4, 57);
            assert!(s.get_raw_f57() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f57() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S4_2::new(&mut c[..]); m.set_f57(v); }
            assert!(updated::<false>(&b[12..20], &c[12..20], 4, 57, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_2::new(&mut c[..]); m.set_raw_f57(r); }
            assert!(updated::<false>(&b[12..20], &c[12..20], 4, 57, r as u64) && others(&b, &c, 12, 20), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[20..29], 4, 63);
            assert!(s.get_raw_f63() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f63() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S4_2::new(&mut c[..]); m.set_f63(v); }
            assert!(updated::<false>(&b[20..29], &c[20..29], 4, 63, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_2::new(&mut c[..]); m.set_raw_f63(r); }
            assert!(updated::<false>(&b[20..29], &c[20..29], 4, 63, r as u64) && others(&b, &c, 20, 29), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[28..37], 4, 64);
            assert!(s.get_raw_f64() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f64() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S4_2::new(&mut c[..]); m.set_f64(v); }
            assert!(updated::<false>(&b[28..37], &c[28..37], 4, 64, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 28, 37), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_2::new(&mut c[..]); m.set_raw_f64(r); }
            assert!(updated::<false>(&b[28..37], &c[28..37], 4, 64, r as u64) && others(&b, &c, 28, 37), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o5_g0() {
        use crate::uleq::*;
        const N: usize = 9;
        assert!(<S5_0<()> as FixedSize>::SIZE == N && SIZE_S5_0 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S5_0::new(&b[..]);
        {
            let raw = field::<false>(&b[0..1], 5, 1);
            assert!(s.get_raw_f1() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f1() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S5_0::new(&mut c[..]); m.set_f1(v); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 5, 1, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_0::new(&mut c[..]); m.set_raw_f1(r); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 5, 1, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[1..2], 5, 3);
            assert!(s.get_raw_f3() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f3() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S5_0::new(&mut c[..]); m.set_f3(v); }
            assert!(updated::<false>(&b[1..2], &c[1..2], 5, 3, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_0::new(&mut c[..]); m.set_raw_f3(r); }
            assert!(updated::<false>(&b[1..2], &c[1..2], 5, 3, r as u64) && others(&b, &c, 1, 2), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[2..4], 5, 7);
            assert!(s.get_raw_f7() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f7() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S5_0::new(&mut c[..]); m.set_f7(v); }
            assert!(updated::<false>(&b[2..4], &c[2..4], 5, 7, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_0::new(&mut c[..]); m.set_raw_f7(r); }
            assert!(updated::<false>(&b[2..4], &c[2..4], 5, 7, r as u64) && others(&b, &c, 2, 4), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[3..5], 5, 8);
            assert!(s.get_raw_f8() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f8() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S5_0::new(&mut c[..]); m.set_f8(v); }
            assert!(updated::<false>(&b[3..5], &c[3..5], 5, 8, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_0::new(&mut c[..]); m.set_raw_f8(r); }
            assert!(updated::<false>(&b[3..5], &c[3..5], 5, 8, r as u64) && others(&b, &c, 3, 5), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[4..6], 5, 9);
            assert!(s.get_raw_f9() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f9() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S5_0::new(&mut c[..]); m.set_f9(v); }
            assert!(updated::<false>(&b[4..6], &c[4..6], 5, 9, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_0::new(&mut c[..]); m.set_raw_f9(r); }
            assert!(updated::<false>(&b[4..6], &c[4..6], 5, 9, r as u64) && others(&b, &c, 4, 6), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[6..9], 5, 16);
            assert!(s.get_raw_f16() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f16() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S5_0::new(&mut c[..]); m.set_f16(v); }
            assert!(updated::<false>(&b[6..9], &c[6..9], 5, 16, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 9), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_0::new(&mut c[..]); m.set_raw_f16(r); }
            assert!(updated::<false>(&b[6..9], &c[6..9], 5, 16, r as u64) && others(&b, &c, 6, 9), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o5_g1() {
        use crate::uleq::*;
        const N: usize = 19;
        assert!(<S5_1<()> as FixedSize>::SIZE == N && SIZE_S5_1 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S5_1::new(&b[..]);
        {
            let raw = field::<false>(&b[0..3], 5, 17);
            assert!(s.get_raw_f17() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f17() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S5_1::new(&mut c[..]); m.set_f17(v); }
            assert!(updated::<false>(&b[0..3], &c[0..3], 5, 17, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_1::new(&mut c[..]); m.set_raw_f17(r); }
            assert!(updated::<false>(&b[0..3], &c[0..3], 5, 17, r as u64) && others(&b, &c, 0, 3), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[3..7], 5, 24);
            assert!(s.get_raw_f24() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f24() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S5_1::new(&mut c[..]); m.set_f24(v); }
            assert!(updated::<false>(&b[3..7], &c[3..7], 5, 24, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_1::new(&mut c[..]); m.set_raw_f24(r); }
            assert!(updated::<false>(&b[3..7], &c[3..7], 5, 24, r as u64) && others(&b, &c, 3, 7), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[6..10], 5, 25);
            assert!(s.get_raw_f25() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f25() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S5_1::new(&mut c[..]); m.set_f25(v); }
            assert!(updated::<false>(&b[6..10], &c[6..10], 5, 25, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_1::new(&mut c[..]); m.set_raw_f25(r); }
            assert!(updated::<false>(&b[6..10], &c[6..10], 5, 25, r as u64) && others(&b, &c, 6, 10), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[10..15], 5, 32);
            assert!(s.get_raw_f32() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f32() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S5_1::new(&mut c[..]); m.set_f32(v); }
            assert!(updated::<false>(&b[10..15], &c[10..15], 5, 32, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 15), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_1::new(&mut c[..]); m.set_raw_f32(r); }
            assert!(updated::<false>(&b[10..15], &c[10..15], 5, 32, r as u64) && others(&b, &c, 10, 15), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[14..19], 5, 33);
            assert!(s.get_raw_f33() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f33() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S5_1::new(&mut c[..]); m.set_f33(v); }
            assert!(updated::<false>(&b[14..19], &c[14..19], 5, 33, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 14, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_1::new(&mut c[..]); m.set_raw_f33(r); }
            assert!(updated::<false>(&b[14..19], &c[14..19], 5, 33, r as u64) && others(&b, &c, 14, 19), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o5_g2() {
        use crate::uleq::*;
        const N: usize = 37;
        assert!(<S5_2<()> as FixedSize>::SIZE == N && SIZE_S5_2 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S5_2::new(&b[..]);
        {
            let raw = field::<false>(&b[0..6], 5, 40);
            assert!(s.get_raw_f40() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f40() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S5_2::new(&mut c[..]); m.set_f40(v); }
            assert!(updated::<false>(&b[0..6], &c[0..6], 5, 40, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_2::new(&mut c[..]); m.set_raw_f40(r); }
            assert!(updated::<false>(&b[0..6], &c[0..6], 5, 40, r as u64) && others(&b, &c, 0, 6), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[5..13], 5, 56);
            assert!(s.get_raw_f56() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f56() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S5_2::new(&mut c[..]); m.set_f56(v); }
            assert!(updated::<false>(&b[5..13], &c[5..13], 5, 56, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_2::new(&mut c[..]); m.set_raw_f56(r); }
            assert!(updated::<false>(&b[5..13], &c[5..13], 5, 56, r as u64) && others(&b, &c, 5, 13), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[12..20], 5, 57);
            assert!(s.get_raw_f57() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f57() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S5_2::new(&mut c[..]); m.set_f57(v); }
            assert!(updated::<false>(&b[12..20], &c[12..20], 5, 57, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_2::new(&mut c[..]); m.set_raw_f57(r); }
            assert!(updated::<false>(&b[12..20], &c[12..20], 5, 57, r as u64) && others(&b, &c, 12, 20), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[20..29], 5, 63);
            assert!(s.get_raw_f63() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f63() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S5_2::new(&mut c[..]); m.set_f63(v); }
            assert!(updated::<false>(&b[20..29], &c[20..29], 5, 63, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_2::new(&mut c[..]); m.set_raw_f63(r); }
            assert!(updated::<false>(&b[20..29], &c[20..29], 5, 63, r as u64) && others(&b, &c, 20, 29), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[28..37], 5, 64);
            assert!(s.get_raw_f64() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f64() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S5_2::new(&mut c[..]); m.set_f64(v); }
            assert!(updated::<false>(&b[28..37], &c[28..37], 5, 64, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 28, 37), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_2::new(&mut c[..]); m.set_raw_f64(r); }
            assert!(updated::<false>(&b[28..37], &c[28..37], 5, 64, r as u64) && others(&b, &c, 28, 37), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o6_g0() {
        use crate::uleq::*;
        const N: usize = 9;
        assert!(<S6_0<()> as FixedSize>::SIZE == N && SIZE_S6_0 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S6_0::new(&b[..]);
        {
            let raw = field::<false>(&b[0..1], 6, 1);
            assert!(s.get_raw_f1() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f1() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S6_0::new(&mut c[..]); m.set_f1(v); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 6, 1, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_0::new(&mut c[..]); m.set_raw_f1(r); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 6, 1, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[1..3], 6, 3);
            assert!(s.get_raw_f3() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f3() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S6_0::new(&mut c[..]); m.set_f3(v); }
            assert!(updated::<false>(&b[1..3], &c[1..3], 6, 3, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_0::new(&mut c[..]); m.set_raw_f3(r); }
            assert!(updated::<false>(&b[1..3], &c[1..3], 6, 3, r as u64) && others(&b, &c, 1, 3), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[2..4], 6, 7);
            assert!(s.get_raw_f7() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f7() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S6_0::new(&mut c[..]); m.set_f7(v); }
            assert!(updated::<false>(&b[2..4], &c[2..4], 6, 7, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_0::new(&mut c[..]); m.set_raw_f7(r); }
            assert!(updated::<false>(&b[2..4], &c[2..4], 6, 7, r as u64) && others(&b, &c, 2, 4), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[3..5], 6, 8);
            assert!(s.get_raw_f8() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f8() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S6_0::new(&mut c[..]); m.set_f8(v); }
            assert!(updated::<false>(&b[3..5], &c[3..5], 6, 8, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_0::new(&mut c[..]); m.set_raw_f8(r); }
            assert!(updated::<false>(&b[3..5], &c[3..5], 6, 8, r as u64) && others(&b, &c, 3, 5), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[4..6], 6, 9);
            assert!(s.get_raw_f9() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f9() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S6_0::new(&mut c[..]); m.set_f9(v); }
            assert!(updated::<false>(&b[4..6], &c[4..6], 6, 9, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_0::new(&mut c[..]); m.set_raw_f9(r); }
            assert!(updated::<false>(&b[4..6], &c[4..6], 6, 9, r as u64) && others(&b, &c, 4, 6), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[6..9], 6, 16);
            assert!(s.get_raw_f16() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f16() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S6_0::new(&mut c[..]); m.set_f16(v); }
            assert!(updated::<false>(&b[6..9], &c[6..9], 6, 16, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 9), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_0::new(&mut c[..]); m.set_raw_f16(r); }
            assert!(updated::<false>(&b[6..9], &c[6..9], 6, 16, r as u64) && others(&b, &c, 6, 9), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o6_g1() {
        use crate::uleq::*;
        const N: usize = 19;
        assert!(<S6_1<()> as FixedSize>::SIZE == N && SIZE_S6_1 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S6_1::new(&b[..]);
        {
            let raw = field::<false>(&b[0..3], 6, 17);
            assert!(s.get_raw_f17() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f17() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S6_1::new(&mut c[..]); m.set_f17(v); }
            assert!(updated::<false>(&b[0..3], &c[0..3], 6, 17, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_1::new(&mut c[..]); m.set_raw_f17(r); }
            assert!(updated::<false>(&b[0..3], &c[0..3], 6, 17, r as u64) && others(&b, &c, 0, 3), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[3..7], 6, 24);
            assert!(s.get_raw_f24() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f24() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S6_1::new(&mut c[..]); m.set_f24(v); }
            assert!(updated::<false>(&b[3..7], &c[3..7], 6, 24, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_1::new(&mut c[..]); m.set_raw_f24(r); }
            assert!(updated::<false>(&b[3..7], &c[3..7], 6, 24, r as u64) && others(&b, &c, 3, 7), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[6..10], 6, 25);
            assert!(s.get_raw_f25() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f25() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S6_1::new(&mut c[..]); m.set_f25(v); }
            assert!(updated::<false>(&b[6..10], &c[6..10], 6, 25, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_1::new(&mut c[..]); m.set_raw_f25(r); }
            assert!(updated::<false>(&b[6..10], &c[6..10], 6, 25, r as u64) && others(&b, &c, 6, 10), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[10..15], 6, 32);
            assert!(s.get_raw_f32() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f32() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S6_1::new(&mut c[..]); m.set_f32(v); }
            assert!(updated::<false>(&b[10..15], &c[10..15], 6, 32, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 15), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_1::new(&mut c[..]); m.set_raw_f32(r); }
            assert!(updated::<false>(&b[10..15], &c[10..15], 6, 32, r as u64) && others(&b, &c, 10, 15), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[14..19], 6, 33);
            assert!(s.get_raw_f33() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f33() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S6_1::new(&mut c[..]); m.set_f33(v); }
            assert!(updated::<false>(&b[14..19], &c[14..19], 6, 33, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 14, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_1::new(&mut c[..]); m.set_raw_f33(r); }
            assert!(updated::<false>(&b[14..19], &c[14..19], 6, 33, r as u64) && others(&b, &c, 14, 19), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o6_g2() {
        use crate::uleq::*;
        const N: usize = 37;
        assert!(<S6_2<()> as FixedSize>::SIZE == N && SIZE_S6_2 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S6_2::new(&b[..]);
        {
            let raw = field::<false>(&b[0..6], 6, 40);
            assert!(s.get_raw_f40() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f40() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S6_2::new(&mut c[..]); m.set_f40(v); }
            assert!(updated::<false>(&b[0..6], &c[0..6], 6, 40, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_2::new(&mut c[..]); m.set_raw_f40(r); }
            assert!(updated::<false>(&b[0..6], &c[0..6], 6, 40, r as u64) && others(&b, &c, 0, 6), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[5..13], 6, 56);
            assert!(s.get_raw_f56() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f56() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S6_2::new(&mut c[..]); m.set_f56(v); }
            assert!(updated::<false>(&b[5..13], &c[5..13], 6, 56, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_2::new(&mut c[..]); m.set_raw_f56(r); }
            assert!(updated::<false>(&b[5..13], &c[5..13], 6, 56, r as u64) && others(&b, &c, 5, 13), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[12..20], 6, 57);
            assert!(s.get_raw_f57() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f57() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S6_2::new(&mut c[..]); m.set_f57(v); }
            assert!(updated::<false>(&b[12..20], &c[12..20], 6, 57, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_2::new(&mut c[..]); m.set_raw_f57(r); }
            assert!(updated::<false>(&b[12..20], &c[12..20], 6, 57, r as u64) && others(&b, &c, 12, 20), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[20..29], 6, 63);
            assert!(s.get_raw_f63() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f63() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S6_2::new(&mut c[..]); m.set_f63(v); }
            assert!(updated::<false>(&b[20..29], &c[20..29], 6, 63, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_2::new(&mut c[..]); m.set_raw_f63(r); }
            assert!(updated::<false>(&b[20..29], &c[20..29], 6, 63, r as u64) && others(&b, &c, 20, 29), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[28..37], 6, 64);
            assert!(s.get_raw_f64() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f64() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S6_2::new(&mut c[..]); m.set_f64(v); }
            assert!(updated::<false>(&b[28..37], &c[28..37], 6, 64, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 28, 37), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_2::new(&mut c[..]); m.set_raw_f64(r); }
            assert!(updated::<false>(&b[28..37], &c[28..37], 6, 64, r as u64) && others(&b, &c, 28, 37), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o7_g0() {
        use crate::uleq::*;
        const N: usize = 9;
        assert!(<S7_0<()> as FixedSize>::SIZE == N && SIZE_S7_0 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S7_0::new(&b[..]);
        {
            let raw = field::<false>(&b[0..1], 7, 1);
            assert!(s.get_raw_f1() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f1() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S7_0::new(&mut c[..]); m.set_f1(v); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 7, 1, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_0::new(&mut c[..]); m.set_raw_f1(r); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 7, 1, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[1..3], 7, 3);
            assert!(s.get_raw_f3() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f3() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S7_0::new(&mut c[..]); m.set_f3(v); }
            assert!(updated::<false>(&b[1..3], &c[1..3], 7, 3, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_0::new(&mut c[..]); m.set_raw_f3(r); }
            assert!(updated::<false>(&b[1..3], &c[1..3], 7, 3, r as u64) && others(&b, &c, 1, 3), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[2..4], 7, 7);
            assert!(s.get_raw_f7() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f7() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S7_0::new(&mut c[..]); m.set_f7(v); }
            assert!(updated::<false>(&b[2..4], &c[2..4], 7, 7, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_0::new(&mut c[..]); m.set_raw_f7(r); }
            assert!(updated::<false>(&b[2..4], &c[2..4], 7, 7, r as u64) && others(&b, &c, 2, 4), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[3..5], 7, 8);
            assert!(s.get_raw_f8() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f8() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S7_0::new(&mut c[..]); m.set_f8(v); }
            assert!(updated::<false>(&b[3..5], &c[3..5], 7, 8, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_0::new(&mut c[..]); m.set_raw_f8(r); }
            assert!(updated::<false>(&b[3..5], &c[3..5], 7, 8, r as u64) && others(&b, &c, 3, 5), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[4..6], 7, 9);
            assert!(s.get_raw_f9() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f9() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S7_0::new(&mut c[..]); m.set_f9(v); }
            assert!(updated::<false>(&b[4..6], &c[4..6], 7, 9, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_0::new(&mut c[..]); m.set_raw_f9(r); }
            assert!(updated::<false>(&b[4..6], &c[4..6], 7, 9, r as u64) && others(&b, &c, 4, 6), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[6..9], 7, 16);
            assert!(s.get_raw_f16() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f16() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S7_0::new(&mut c[..]); m.set_f16(v); }
            assert!(updated::<false>(&b[6..9], &c[6..9], 7, 16, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 9), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_0::new(&mut c[..]); m.set_raw_f16(r); }
            assert!(updated::<false>(&b[6..9], &c[6..9], 7, 16, r as u64) && others(&b, &c, 6, 9), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o7_g1() {
        use crate::uleq::*;
        const N: usize = 19;
        assert!(<S7_1<()> as FixedSize>::SIZE == N && SIZE_S7_1 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S7_1::new(&b[..]);
        {
            let raw = field::<false>(&b[0..3], 7, 17);
            assert!(s.get_raw_f17() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f17() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S7_1::new(&mut c[..]); m.set_f17(v); }
            assert!(updated::<false>(&b[0..3], &c[0..3], 7, 17, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_1::new(&mut c[..]); m.set_raw_f17(r); }
            assert!(updated::<false>(&b[0..3], &c[0..3], 7, 17, r as u64) && others(&b, &c, 0, 3), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[3..7], 7, 24);
            assert!(s.get_raw_f24() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f24() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S7_1::new(&mut c[..]); m.set_f24(v); }
            assert!(updated::<false>(&b[3..7], &c[3..7], 7, 24, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_1::new(&mut c[..]); m.set_raw_f24(r); }
            assert!(updated::<false>(&b[3..7], &c[3..7], 7, 24, r as u64) && others(&b, &c, 3, 7), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[6..10], 7, 25);
            assert!(s.get_raw_f25() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f25() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S7_1::new(&mut c[..]); m.set_f25(v); }
            assert!(updated::<false>(&b[6..10], &c[6..10], 7, 25, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_1::new(&mut c[..]); m.set_raw_f25(r); }
            assert!(updated::<false>(&b[6..10], &c[6..10], 7, 25, r as u64) && others(&b, &c, 6, 10), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[10..15], 7, 32);
            assert!(s.get_raw_f32() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f32() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S7_1::new(&mut c[..]); m.set_f32(v); }
            assert!(updated::<false>(&b[10..15], &c[10..15], 7, 32, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 15), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_1::new(&mut c[..]); m.set_raw_f32(r); }
            assert!(updated::<false>(&b[10..15], &c[10..15], 7, 32, r as u64) && others(&b, &c, 10, 15), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[14..19], 7, 33);
            assert!(s.get_raw_f33() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f33() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S7_1::new(&mut c[..]); m.set_f33(v); }
            assert!(updated::<false>(&b[14..19], &c[14..19], 7, 33, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 14, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_1::new(&mut c[..]); m.set_raw_f33(r); }
            assert!(updated::<false>(&b[14..19], &c[14..19], 7, 33, r as u64) && others(&b, &c, 14, 19), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o7_g2() {
        use crate::uleq::*;
        const N: usize = 37;
        assert!(<S7_2<()> as FixedSize>::SIZE == N && SIZE_S7_2 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S7_2::new(&b[..]);
        {
            let raw = field::<false>(&b[0..6], 7, 40);
            assert!(s.get_raw_f40() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f40() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S7_2::new(&mut c[..]); m.set_f40(v); }
            assert!(updated::<false>(&b[0..6], &c[0..6], 7, 40, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_2::new(&mut c[..]); m.set_raw_f40(r); }
            assert!(updated::<false>(&b[0..6], &c[0..6], 7, 40, r as u64) && others(&b, &c, 0, 6), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[5..13], 7, 56);
            assert!(s.get_raw_f56() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f56() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S7_2::new(&mut c[..]); m.set_f56(v); }
            assert!(updated::<false>(&b[5..13], &c[5..13], 7, 56, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_2::new(&mut c[..]); m.set_raw_f56(r); }
            assert!(updated::<false>(&b[5..13], &c[5..13], 7, 56, r as u64) && others(&b, &c, 5, 13), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[12..20], 7, 57);
            assert!(s.get_raw_f57() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f57() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S7_2::new(&mut c[..]); m.set_f57(v); }
            assert!(updated::<false>(&b[12..20], &c[12..20], 7, 57, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_2::new(&mut c[..]); m.set_raw_f57(r); }
            assert!(updated::<false>(&b[12..20], &c[12..20], 7, 57, r as u64) && others(&b, &c, 12, 20), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[20..29], 7, 63);
            assert!(s.get_raw_f63() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f63() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S7_2::new(&mut c[..]); m.set_f63(v); }
            assert!(updated::<false>(&b[20..29], &c[20..29], 7, 63, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_2::new(&mut c[..]); m.set_raw_f63(r); }
            assert!(updated::<false>(&b[20..29], &c[20..29], 7, 63, r as u64) && others(&b, &c, 20, 29), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[28..37], 7, 64);
            assert!(s.get_raw_f64() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f64() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S7_2::new(&mut c[..]); m.set_f64(v); }
            assert!(updated::<false>(&b[28..37], &c[28..37], 7, 64, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 28, 37), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_2::new(&mut c[..]); m.set_raw_f64(r); }
            assert!(updated::<false>(&b[28..37], &c[28..37], 7, 64, r as u64) && others(&b, &c, 28, 37), "the raw setter replaces the bits of the field only");
        }
    }
}
#[cfg(feature = "ubeq")]
mod ubeq {
    use crate::spec::*;
    use bp3d_proto::util::FixedSize;
    #[kani::proof]
    fn o0_g0() {
        use crate::ubeq::*;
        const N: usize = 8;
        assert!(<S0_0<()> as FixedSize>::SIZE == N && SIZE_S0_0 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S0_0::new(&b[..]);
        {
            let raw = field::<true>(&b[0..1], 0, 1);
            assert!(s.get_raw_f1() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f1() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S0_0::new(&mut c[..]); m.set_f1(v); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 0, 1, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_0::new(&mut c[..]); m.set_raw_f1(r); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 0, 1, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[1..2], 0, 3);
            assert!(s.get_raw_f3() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f3() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S0_0::new(&mut c[..]); m.set_f3(v); }
            assert!(updated::<true>(&b[1..2], &c[1..2], 0, 3, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_0::new(&mut c[..]); m.set_raw_f3(r); }
            assert!(updated::<true>(&b[1..2], &c[1..2], 0, 3, r as u64) && others(&b, &c, 1, 2), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[2..3], 0, 7);
            assert!(s.get_raw_f7() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f7() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S0_0::new(&mut c[..]); m.set_f7(v); }
            assert!(updated::<true>(&b[2..3], &c[2..3], 0, 7, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_0::new(&mut c[..]); m.set_raw_f7(r); }
            assert!(updated::<true>(&b[2..3], &c[2..3], 0, 7, r as u64) && others(&b, &c, 2, 3), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[3..4], 0, 8);
            assert!(s.get_raw_f8() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f8() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S0_0::new(&mut c[..]); m.set_f8(v); }
            assert!(updated::<true>(&b[3..4], &c[3..4], 0, 8, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_0::new(&mut c[..]); m.set_raw_f8(r); }
            assert!(updated::<true>(&b[3..4], &c[3..4], 0, 8, r as u64) && others(&b, &c, 3, 4), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[4..6], 0, 9);
            assert!(s.get_raw_f9() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f9() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S0_0::new(&mut c[..]); m.set_f9(v); }
            assert!(updated::<true>(&b[4..6], &c[4..6], 0, 9, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_0::new(&mut c[..]); m.set_raw_f9(r); }
            assert!(updated::<true>(&b[4..6], &c[4..6], 0, 9, r as u64) && others(&b, &c, 4, 6), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[6..8], 0, 16);
            assert!(s.get_raw_f16() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f16() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S0_0::new(&mut c[..]); m.set_f16(v); }
            assert!(updated::<true>(&b[6..8], &c[6..8], 0, 16, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_0::new(&mut c[..]); m.set_raw_f16(r); }
            assert!(updated::<true>(&b[6..8], &c[6..8], 0, 16, r as u64) && others(&b, &c, 6, 8), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o0_g1() {
        use crate::ubeq::*;
        const N: usize = 19;
        assert!(<S0_1<()> as FixedSize>::SIZE == N && SIZE_S0_1 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S0_1::new(&b[..]);
        {
            let raw = field::<true>(&b[0..3], 0, 17);
            assert!(s.get_raw_f17() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f17() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S0_1::new(&mut c[..]); m.set_f17(v); }
            assert!(updated::<true>(&b[0..3], &c[0..3], 0, 17, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_1::new(&mut c[..]); m.set_raw_f17(r); }
            assert!(updated::<true>(&b[0..3], &c[0..3], 0, 17, r as u64) && others(&b, &c, 0, 3), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[3..6], 0, 24);
            assert!(s.get_raw_f24() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f24() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S0_1::new(&mut c[..]); m.set_f24(v); }
            assert!(updated::<true>(&b[3..6], &c[3..6], 0, 24, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_1::new(&mut c[..]); m.set_raw_f24(r); }
            assert!(updated::<true>(&b[3..6], &c[3..6], 0, 24, r as u64) && others(&b, &c, 3, 6), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[6..10], 0, 25);
            assert!(s.get_raw_f25() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f25() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S0_1::new(&mut c[..]); m.set_f25(v); }
            assert!(updated::<true>(&b[6..10], &c[6..10], 0, 25, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_1::new(&mut c[..]); m.set_raw_f25(r); }
            assert!(updated::<true>(&b[6..10], &c[6..10], 0, 25, r as u64) && others(&b, &c, 6, 10), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[10..14], 0, 32);
            assert!(s.get_raw_f32() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f32() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S0_1::new(&mut c[..]); m.set_f32(v); }
            assert!(updated::<true>(&b[10..14], &c[10..14], 0, 32, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 14), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_1::new(&mut c[..]); m.set_raw_f32(r); }
            assert!(updated::<true>(&b[10..14], &c[10..14], 0, 32, r as u64) && others(&b, &c, 10, 14), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[14..19], 0, 33);
            assert!(s.get_raw_f33() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f33() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S0_1::new(&mut c[..]); m.set_f33(v); }
            assert!(updated::<true>(&b[14..19], &c[14..19], 0, 33, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 14, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_1::new(&mut c[..]); m.set_raw_f33(r); }
            assert!(updated::<true>(&b[14..19], &c[14..19], 0, 33, r as u64) && others(&b, &c, 14, 19), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o0_g2() {
        use crate::ubeq::*;
        const N: usize = 36;
        assert!(<S0_2<()> as FixedSize>::SIZE == N && SIZE_S0_2 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S0_2::new(&b[..]);
        {
            let raw = field::<true>(&b[0..5], 0, 40);
            assert!(s.get_raw_f40() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f40() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S0_2::new(&mut c[..]); m.set_f40(v); }
            assert!(updated::<true>(&b[0..5], &c[0..5], 0, 40, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_2::new(&mut c[..]); m.set_raw_f40(r); }
            assert!(updated::<true>(&b[0..5], &c[0..5], 0, 40, r as u64) && others(&b, &c, 0, 5), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[5..12], 0, 56);
            assert!(s.get_raw_f56() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f56() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S0_2::new(&mut c[..]); m.set_f56(v); }
            assert!(updated::<true>(&b[5..12], &c[5..12], 0, 56, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 12), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_2::new(&mut c[..]); m.set_raw_f56(r); }
            assert!(updated::<true>(&b[5..12], &c[5..12], 0, 56, r as u64) && others(&b, &c, 5, 12), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[12..20], 0, 57);
            assert!(s.get_raw_f57() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f57() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S0_2::new(&mut c[..]); m.set_f57(v); }
            assert!(updated::<true>(&b[12..20], &c[12..20], 0, 57, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_2::new(&mut c[..]); m.set_raw_f57(r); }
            assert!(updated::<true>(&b[12..20], &c[12..20], 0, 57, r as u64) && others(&b, &c, 12, 20), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[20..28], 0, 63);
            assert!(s.get_raw_f63() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f63() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S0_2::new(&mut c[..]); m.set_f63(v); }
            assert!(updated::<true>(&b[20..28], &c[20..28], 0, 63, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 28), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_2::new(&mut c[..]); m.set_raw_f63(r); }
            assert!(updated::<true>(&b[20..28], &c[20..28], 0, 63, r as u64) && others(&b, &c, 20, 28), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[28..36], 0, 64);
            assert!(s.get_raw_f64() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f64() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S0_2::new(&mut c[..]); m.set_f64(v); }
            assert!(updated::<true>(&b[28..36], &c[28..36], 0, 64, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 28, 36), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_2::new(&mut c[..]); m.set_raw_f64(r); }
            assert!(updated::<true>(&b[28..36], &c[28..36], 0, 64, r as u64) && others(&b, &c, 28, 36), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o1_g0() {
        use crate::ubeq::*;
        const N: usize = 9;
        assert!(<S1_0<()> as FixedSize>::SIZE == N && SIZE_S1_0 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S1_0::new(&b[..]);
        {
            let raw = field::<true>(&b[0..1], 1, 1);
            assert!(s.get_raw_f1() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f1() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S1_0::new(&mut c[..]); m.set_f1(v); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 1, 1, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_0::new(&mut c[..]); m.set_raw_f1(r); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 1, 1, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[1..2], 1, 3);
            assert!(s.get_raw_f3() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f3() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S1_0::new(&mut c[..]); m.set_f3(v); }
            assert!(updated::<true>(&b[1..2], &c[1..2], 1, 3, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_0::new(&mut c[..]); m.set_raw_f3(r); }
            assert!(updated::<true>(&b[1..2], &c[1..2], 1, 3, r as u64) && others(&b, &c, 1, 2), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[2..3], 1, 7);
            assert!(s.get_raw_f7() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f7() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S1_0::new(&mut c[..]); m.set_f7(v); }
            assert!(updated::<true>(&b[2..3], &c[2..3], 1, 7, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_0::new(&mut c[..]); m.set_raw_f7(r); }
            assert!(updated::<true>(&b[2..3], &c[2..3], 1, 7, r as u64) && others(&b, &c, 2, 3), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[3..5], 1, 8);
            assert!(s.get_raw_f8() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f8() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S1_0::new(&mut c[..]); m.set_f8(v); }
            assert!(updated::<true>(&b[3..5], &c[3..5], 1, 8, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_0::new(&mut c[..]); m.set_raw_f8(r); }
            assert!(updated::<true>(&b[3..5], &c[3..5], 1, 8, r as u64) && others(&b, &c, 3, 5), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[4..6], 1, 9);
            assert!(s.get_raw_f9() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f9() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S1_0::new(&mut c[..]); m.set_f9(v); }
            assert!(updated::<true>(&b[4..6], &c[4..6], 1, 9, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_0::new(&mut c[..]); m.set_raw_f9(r); }
            assert!(updated::<true>(&b[4..6], &c[4..6], 1, 9, r as u64) && others(&b, &c, 4, 6), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[6..9], 1, 16);
            assert!(s.get_raw_f16() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f16() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S1_0::new(&mut c[..]); m.set_f16(v); }
            assert!(updated::<true>(&b[6..9], &c[6..9], 1, 16, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 9), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_0::new(&mut c[..]); m.set_raw_f16(r); }
            assert!(updated::<true>(&b[6..9], &c[6..9], 1, 16, r as u64) && others(&b, &c, 6, 9), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o1_g1() {
        use crate::ubeq::*;
        const N: usize = 19;
        assert!(<S1_1<()> as FixedSize>::SIZE == N && SIZE_S1_1 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S1_1::new(&b[..]);
        {
            let raw = field::<true>(&b[0..3], 1, 17);
            assert!(s.get_raw_f17() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f17() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S1_1::new(&mut c[..]); m.set_f17(v); }
            assert!(updated::<true>(&b[0..3], &c[0..3], 1, 17, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_1::new(&mut c[..]); m.set_raw_f17(r); }
            assert!(updated::<true>(&b[0..3], &c[0..3], 1, 17, r as u64) && others(&b, &c, 0, 3), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[3..7], 1, 24);
            assert!(s.get_raw_f24() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f24() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S1_1::new(&mut c[..]); m.set_f24(v); }
            assert!(updated::<true>(&b[3..7], &c[3..7], 1, 24, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_1::new(&mut c[..]); m.set_raw_f24(r); }
            assert!(updated::<true>(&b[3..7], &c[3..7], 1, 24, r as u64) && others(&b, &c, 3, 7), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[6..10], 1, 25);
            assert!(s.get_raw_f25() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f25() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S1_1::new(&mut c[..]); m.set_f25(v); }
            assert!(updated::<true>(&b[6..10], &c[6..10], 1, 25, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_1::new(&mut c[..]); m.set_raw_f25(r); }
            assert!(updated::<true>(&b[6..10], &c[6..10], 1, 25, r as u64) && others(&b, &c, 6, 10), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[10..15], 1, 32);
            assert!(s.get_raw_f32() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f32() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S1_1::new(&mut c[..]); m.set_f32(v); }
            assert!(updated::<true>(&b[10..15], &c[10..15], 1, 32, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 15), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_1::new(&mut c[..]); m.set_raw_f32(r); }
            assert!(updated::<true>(&b[10..15], &c[10..15], 1, 32, r as u64) && others(&b, &c, 10, 15), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[14..19], 1, 33);
            assert!(s.get_raw_f33() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f33() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S1_1::new(&mut c[..]); m.set_f33(v); }
            assert!(updated::<true>(&b[14..19], &c[14..19], 1, 33, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 14, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_1::new(&mut c[..]); m.set_raw_f33(r); }
            assert!(updated::<true>(&b[14..19], &c[14..19], 1, 33, r as u64) && others(&b, &c, 14, 19), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o1_g2() {
        use crate::ubeq::*;
        const N: usize = 37;
        assert!(<S1_2<()> as FixedSize>::SIZE == N && SIZE_S1_2 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S1_2::new(&b[..]);
        {
            let raw = field::<true>(&b[0..6], 1, 40);
            assert!(s.get_raw_f40() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f40() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S1_2::new(&mut c[..]); m.set_f40(v); }
            assert!(updated::<true>(&b[0..6], &c[0..6], 1, 40, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_2::new(&mut c[..]); m.set_raw_f40(r); }
            assert!(updated::<true>(&b[0..6], &c[0..6], 1, 40, r as u64) && others(&b, &c, 0, 6), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[5..13], 1, 56);
            assert!(s.get_raw_f56() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f56() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S1_2::new(&mut c[..]); m.set_f56(v); }
            assert!(updated::<true>(&b[5..13], &c[5..13], 1, 56, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_2::new(&mut c[..]); m.set_raw_f56(r); }
            assert!(updated::<true>(&b[5..13], &c[5..13], 1, 56, r as u64) && others(&b, &c, 5, 13), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[12..20], 1, 57);
            assert!(s.get_raw_f57() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f57() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S1_2::new(&mut c[..]); m.set_f57(v); }
            assert!(updated::<true>(&b[12..20], &c[12..20], 1, 57, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_2::new(&mut c[..]); m.set_raw_f57(r); }
            assert!(updated::<true>(&b[12..20], &c[12..20], 1, 57, r as u64) && others(&b, &c, 12, 20), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[20..28], 1, 63);
            assert!(s.get_raw_f63() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f63() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S1_2::new(&mut c[..]); m.set_f63(v); }
            assert!(updated::<true>(&b[20..28], &c[20..28], 1, 63, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 28), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_2::new(&mut c[..]); m.set_raw_f63(r); }
            assert!(updated::<true>(&b[20..28], &c[20..28], 1, 63, r as u64) && others(&b, &c, 20, 28), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[28..37], 1, 64);
            assert!(s.get_raw_f64() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f64() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S1_2::new(&mut c[..]); m.set_f64(v); }
            assert!(updated::<true>(&b[28..37], &c[28..37], 1, 64, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 28, 37), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_2::new(&mut c[..]); m.set_raw_f64(r); }
            assert!(updated::<true>(&b[28..37], &c[28..37], 1, 64, r as u64) && others(&b, &c, 28, 37), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o2_g0() {
        use crate::ubeq::*;
        const N: usize = 9;
        assert!(<S2_0<()> as FixedSize>::SIZE == N && SIZE_S2_0 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S2_0::new(&b[..]);
        {
            let raw = field::<true>(&b[0..1], 2, 1);
            assert!(s.get_raw_f1() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f1() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S2_0::new(&mut c[..]); m.set_f1(v); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 2, 1, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_0::new(&mut c[..]); m.set_raw_f1(r); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 2, 1, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[1..2], 2, 3);
            assert!(s.get_raw_f3() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f3() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S2_0::new(&mut c[..]); m.set_f3(v); }
            assert!(updated::<true>(&b[1..2], &c[1..2], 2, 3, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_0::new(&mut c[..]); m.set_raw_f3(r); }
            assert!(updated::<true>(&b[1..2], &c[1..2], 2, 3, r as u64) && others(&b, &c, 1, 2), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[2..4], 2, 7);
            assert!(s.get_raw_f7() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f7() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S2_0::new(&mut c[..]); m.set_f7(v); }
            assert!(updated::<true>(&b[2..4], &c[2..4], 2, 7, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_0::new(&mut c[..]); m.set_raw_f7(r); }
            assert!(updated::<true>(&b[2..4], &c[2..4], 2, 7, r as u64) && others(&b, &c, 2, 4), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[3..5], 2, 8);
            assert!(s.get_raw_f8() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f8() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S2_0::new(&mut c[..]); m.set_f8(v); }
            assert!(updated::<true>(&b[3..5], &c[3..5], 2, 8, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_0::new(&mut c[..]); m.set_raw_f8(r); }
            assert!(updated::<true>(&b[3..5], &c[3..5], 2, 8, r as u64) && others(&b, &c, 3, 5), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[4..6], 2, 9);
            assert!(s.get_raw_f9() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f9() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S2_0::new(&mut c[..]); m.set_f9(v); }
            assert!(updated::<true>(&b[4..6], &c[4..6], 2, 9, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_0::new(&mut c[..]); m.set_raw_f9(r); }
            assert!(updated::<true>(&b[4..6], &c[4..6], 2, 9, r as u64) && others(&b, &c, 4, 6), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[6..9], 2, 16);
            assert!(s.get_raw_f16() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f16() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S2_0::new(&mut c[..]); m.set_f16(v); }
            assert!(updated::<true>(&b[6..9], &c[6..9], 2, 16, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 9), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_0::new(&mut c[..]); m.set_raw_f16(r); }
            assert!(updated::<true>(&b[6..9], &c[6..9], 2, 16, r as u64) && others(&b, &c, 6, 9), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o2_g1() {
        use crate::ubeq::*;
        const N: usize = 19;
        assert!(<S2_1<()> as FixedSize>::SIZE == N && SIZE_S2_1 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S2_1::new(&b[..]);
        {
            let raw = field::<true>(&b[0..3], 2, 17);
            assert!(s.get_raw_f17() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f17() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S2_1::new(&mut c[..]); m.set_f17(v); }
            assert!(updated::<true>(&b[0..3], &c[0..3], 2, 17, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_1::new(&mut c[..]); m.set_raw_f17(r); }
            assert!(updated::<true>(&b[0..3], &c[0..3], 2, 17, r as u64) && others(&b, &c, 0, 3), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[3..7], 2, 24);
            assert!(s.get_raw_f24() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f24() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S2_1::new(&mut c[..]); m.set_f24(v); }
            assert!(updated::<true>(&b[3..7], &c[3..7], 2, 24, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_1::new(&mut c[..]); m.set_raw_f24(r); }
            assert!(updated::<true>(&b[3..7], &c[3..7], 2, 24, r as u64) && others(&b, &c, 3, 7), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[6..10], 2, 25);
            assert!(s.get_raw_f25() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f25() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S2_1::new(&mut c[..]); m.set_f25(v); }
            assert!(updated::<true>(&b[6..10], &c[6..10], 2, 25, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_1::new(&mut c[..]); m.set_raw_f25(r); }
            assert!(updated::<true>(&b[6..10], &c[6..10], 2, 25, r as u64) && others(&b, &c, 6, 10), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[10..15], 2, 32);
            assert!(s.get_raw_f32() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f32() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S2_1::new(&mut c[..]); m.set_f32(v); }
            assert!(updated::<true>(&b[10..15], &c[10..15], 2, 32, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 15), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_1::new(&mut c[..]); m.set_raw_f32(r); }
            assert!(updated::<true>(&b[10..15], &c[10..15], 2, 32, r as u64) && others(&b, &c, 10, 15), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[14..19], 2, 33);
            assert!(s.get_raw_f33() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f33() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S2_1::new(&mut c[..]); m.set_f33(v); }
            assert!(updated::<true>(&b[14..19], &c[14..19], 2, 33, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 14, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_1::new(&mut c[..]); m.set_raw_f33(r); }
            assert!(updated::<true>(&b[14..19], &c[14..19], 2, 33, r as u64) && others(&b, &c, 14, 19), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o2_g2() {
        use crate::ubeq::*;
        const N: usize = 37;
        assert!(<S2_2<()> as FixedSize>::SIZE == N && SIZE_S2_2 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S2_2::new(&b[..]);
        {
            let raw = field::<true>(&b[0..6], 2, 40);
            assert!(s.get_raw_f40() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f40() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S2_2::new(&mut c[..]); m.set_f40(v); }
            assert!(updated::<true>(&b[0..6], &c[0..6], 2, 40, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_2::new(&mut c[..]); m.set_raw_f40(r); }
            assert!(updated::<true>(&b[0..6], &c[0..6], 2, 40, r as u64) && others(&b, &c, 0, 6), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[5..13], 2, 56);
            assert!(s.get_raw_f56() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f56() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S2_2::new(&mut c[..]); m.set_f56(v); }
            assert!(updated::<true>(&b[5..13], &c[5..13], 2, 56, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_2::new(&mut c[..]); m.set_raw_f56(r); }
            assert!(updated::<true>(&b[5..13], &c[5..13], 2, 56, r as u64) && others(&b, &c, 5, 13), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[12..20], 2, 57);
            assert!(s.get_raw_f57() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f57() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S2_2::new(&mut c[..]); m.set_f57(v); }
            assert!(updated::<true>(&b[12..20], &c[12..20], 2, 57, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_2::new(&mut c[..]); m.set_raw_f57(r); }
            assert!(updated::<true>(&b[12..20], &c[12..20], 2, 57, r as u64) && others(&b, &c, 12, 20), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[20..29], 2, 63);
            assert!(s.get_raw_f63() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f63() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S2_2::new(&mut c[..]); m.set_f63(v); }
            assert!(updated::<true>(&b[20..29], &c[20..29], 2, 63, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_2::new(&mut c[..]); m.set_raw_f63(r); }
            assert!(updated::<true>(&b[20..29], &c[20..29], 2, 63, r as u64) && others(&b, &c, 20, 29), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[28..37], 2, 64);
            assert!(s.get_raw_f64() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f64() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S2_2::new(&mut c[..]); m.set_f64(v); }
            assert!(updated::<true>(&b[28..37], &c[28..37], 2, 64, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 28, 37), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_2::new(&mut c[..]); m.set_raw_f64(r); }
            assert!(updated::<true>(&b[28..37], &c[28..37], 2, 64, r as u64) && others(&b, &c, 28, 37), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o3_g0() {
        use crate::ubeq::*;
        const N: usize = 9;
        assert!(<S3_0<()> as FixedSize>::SIZE == N && SIZE_S3_0 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S3_0::new(&b[..]);
        {
            let raw = field::<true>(&b[0..1], 3, 1);
            assert!(s.get_raw_f1() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f1() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S3_0::new(&mut c[..]); m.set_f1(v); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 3, 1, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_0::new(&mut c[..]); m.set_raw_f1(r); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 3, 1, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[1..2], 3, 3);
            assert!(s.get_raw_f3() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f3() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S3_0::new(&mut c[..]); m.set_f3(v); }
            assert!(updated::<true>(&b[1..2], &c[1..2], 3, 3, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_0::new(&mut c[..]); m.set_raw_f3(r); }
            assert!(updated::<true>(&b[1..2], &c[1..2], 3, 3, r as u64) && others(&b, &c, 1, 2), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[2..4], 3, 7);
            assert!(s.get_raw_f7() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f7() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S3_0::new(&mut c[..]); m.set_f7(v); }
            assert!(updated::<true>(&b[2..4], &c[2..4], 3, 7, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_0::new(&mut c[..]); m.set_raw_f7(r); }
            assert!(updated::<true>(&b[2..4], &c[2..4], 3, 7, r as u64) && others(&b, &c, 2, 4), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[3..5], 3, 8);
            assert!(s.get_raw_f8() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f8() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S3_0::new(&mut c[..]); m.set_f8(v); }
            assert!(updated::<true>(&b[3..5], &c[3..5], 3, 8, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_0::new(&mut c[..]); m.set_raw_f8(r); }
            assert!(updated::<true>(&b[3..5], &c[3..5], 3, 8, r as u64) && others(&b, &c, 3, 5), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[4..6], 3, 9);
            assert!(s.get_raw_f9() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f9() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S3_0::new(&mut c[..]); m.set_f9(v); }
            assert!(updated::<true>(&b[4..6], &c[4..6], 3, 9, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_0::new(&mut c[..]); m.set_raw_f9(r); }
            assert!(updated::<true>(&b[4..6], &c[4..6], 3, 9, r as u64) && others(&b, &c, 4, 6), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[6..9], 3, 16);
            assert!(s.get_raw_f16() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f16() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S3_0::new(&mut c[..]); m.set_f16(v); }
            assert!(updated::<true>(&b[6..9], &c[6..9], 3, 16, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 9), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_0::new(&mut c[..]); m.set_raw_f16(r); }
            assert!(updated::<true>(&b[6..9], &c[6..9], 3, 16, r as u64) && others(&b, &c, 6, 9), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o3_g1() {
        use crate::ubeq::*;
        const N: usize = 19;
        assert!(<S3_1<()> as FixedSize>::SIZE == N && SIZE_S3_1 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S3_1::new(&b[..]);
        {
            let raw = field::<true>(&b[0..3], 3, 17);
            assert!(s.get_raw_f17() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f17() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S3_1::new(&mut c[..]); m.set_f17(v); }
            assert!(updated::<true>(&b[0..3], &c[0..3], 3, 17, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_1::new(&mut c[..]); m.set_raw_f17(r); }
            assert!(updated::<true>(&b[0..3], &c[0..3], 3, 17, r as u64) && others(&b, &c, 0, 3), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[3..7], 3, 24);
            assert!(s.get_raw_f24() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f24() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S3_1::new(&mut c[..]); m.set_f24(v); }
            assert!(updated::<true>(&b[3..7], &c[3..7], 3, 24, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_1::new(&mut c[..]); m.set_raw_f24(r); }
            assert!(updated::<true>(&b[3..7], &c[3..7], 3, 24, r as u64) && others(&b, &c, 3, 7), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[6..10], 3, 25);
            assert!(s.get_raw_f25() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f25() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S3_1::new(&mut c[..]); m.set_f25(v); }
            assert!(updated::<true>(&b[6..10], &c[6..10], 3, 25, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_1::new(&mut c[..]); m.set_raw_f25(r); }
            assert!(updated::<true>(&b[6..10], &c[6..10], 3, 25, r as u64) && others(&b, &c, 6, 10), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[10..15], 3, 32);
            assert!(s.get_raw_f32() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f32() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S3_1::new(&mut c[..]); m.set_f32(v); }
            assert!(updated::<true>(&b[10..15], &c[10..15], 3, 32, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 15), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_1::new(&mut c[..]); m.set_raw_f32(r); }
            assert!(updated::<true>(&b[10..15], &c[10..15], 3, 32, r as u64) && others(&b, &c, 10, 15), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[14..19], 3, 33);
            assert!(s.get_raw_f33() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f33() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S3_1::new(&mut c[..]); m.set_f33(v); }
            assert!(updated::<true>(&b[14..19], &c[14..19], 3, 33, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 14, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_1::new(&mut c[..]); m.set_raw_f33(r); }
            assert!(updated::<true>(&b[14..19], &c[14..19], 3, 33, r as u64) && others(&b, &c, 14, 19), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o3_g2() {
        use crate::ubeq::*;
        const N: usize = 37;
        assert!(<S3_2<()> as FixedSize>::SIZE == N && SIZE_S3_2 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S3_2::new(&b[..]);
        {
            let raw = field::<true>(&b[0..6], 3, 40);
            assert!(s.get_raw_f40() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f40() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S3_2::new(&mut c[..]); m.set_f40(v); }
            assert!(updated::<true>(&b[0..6], &c[0..6], 3, 40, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_2::new(&mut c[..]); m.set_raw_f40(r); }
            assert!(updated::<true>(&b[0..6], &c[0..6], 3, 40, r as u64) && others(&b, &c, 0, 6), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[5..13], 3, 56);
            assert!(s.get_raw_f56() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f56() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S3_2::new(&mut c[..]); m.set_f56(v); }
            assert!(updated::<true>(&b[5..13], &c[5..13], 3, 56, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_2::new(&mut c[..]); m.set_raw_f56(r); }
            assert!(updated::<true>(&b[5..13], &c[5..13], 3, 56, r as u64) && others(&b, &c, 5, 13), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[12..20], 3, 57);
            assert!(s.get_raw_f57() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f57() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S3_2::new(&mut c[..]); m.set_f57(v); }
            assert!(updated::<true>(&b[12..20], &c[12..20], 3, 57, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_2::new(&mut c[..]); m.set_raw_f57(r); }
            assert!(updated::<true>(&b[12..20], &c[12..20], 3, 57, r as u64) && others(&b, &c, 12, 20), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[20..29], 3, 63);
            assert!(s.get_raw_f63() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f63() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S3_2::new(&mut c[..]); m.set_f63(v); }
            assert!(updated::<true>(&b[20..29], &c[20..29], 3, 63, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_2::new(&mut c[..]); m.set_raw_f63(r); }
            assert!(updated::<true>(&b[20..29], &c[20..29], 3, 63, r as u64) && others(&b, &c, 20, 29), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[28..37], 3, 64);
            assert!(s.get_raw_f64() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f64() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S3_2::new(&mut c[..]); m.set_f64(v); }
            assert!(updated::<true>(&b[28..37], &c[28..37], 3, 64, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 28, 37), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_2::new(&mut c[..]); m.set_raw_f64(r); }
            assert!(updated::<true>(&b[28..37], &c[28..37], 3, 64, r as u64) && others(&b, &c, 28, 37), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o4_g0() {
        use crate::ubeq::*;
        const N: usize = 9;
        assert!(<S4_0<()> as FixedSize>::SIZE == N && SIZE_S4_0 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S4_0::new(&b[..]);
        {
            let raw = field::<true>(&b[0..1], 4, 1);
            assert!(s.get_raw_f1() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f1() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S4_0::new(&mut c[..]); m.set_f1(v); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 4, 1, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_0::new(&mut c[..]); m.set_raw_f1(r); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 4, 1, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[1..2], 4, 3);
            assert!(s.get_raw_f3() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f3() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S4_0::new(&mut c[..]); m.set_f3(v); }
            assert!(updated::<true>(&b[1..2], &c[1..2], 4, 3, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_0::new(&mut c[..]); m.set_raw_f3(r); }
            assert!(updated::<true>(&b[1..2], &c[1..2], 4, 3, r as u64) && others(&b, &c, 1, 2), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[2..4], 4, 7);
            assert!(s.get_raw_f7() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f7() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S4_0::new(&mut c[..]); m.set_f7(v); }
            assert!(updated::<true>(&b[2..4], &c[2..4], 4, 7, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_0::new(&mut c[..]); m.set_raw_f7(r); }
            assert!(updated::<true>(&b[2..4], &c[2..4], 4, 7, r as u64) && others(&b, &c, 2, 4), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[3..5], 4, 8);
            assert!(s.get_raw_f8() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f8() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S4_0::new(&mut c[..]); m.set_f8(v); }
            assert!(updated::<true>(&b[3..5], &c[3..5], 4, 8, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_0::new(&mut c[..]); m.set_raw_f8(r); }
            assert!(updated::<true>(&b[3..5], &c[3..5], 4, 8, r as u64) && others(&b, &c, 3, 5), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[4..6], 4, 9);
            assert!(s.get_raw_f9() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f9() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S4_0::new(&mut c[..]); m.set_f9(v); }
            assert!(updated::<true>(&b[4..6], &c[4..6], 4, 9, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_0::new(&mut c[..]); m.set_raw_f9(r); }
            assert!(updated::<true>(&b[4..6], &c[4..6], 4, 9, r as u64) && others(&b, &c, 4, 6), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[6..9], 4, 16);
            assert!(s.get_raw_f16() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f16() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S4_0::new(&mut c[..]); m.set_f16(v); }
            assert!(updated::<true>(&b[6..9], &c[6..9], 4, 16, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 9), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_0::new(&mut c[..]); m.set_raw_f16(r); }
            assert!(updated::<true>(&b[6..9], &c[6..9], 4, 16, r as u64) && others(&b, &c, 6, 9), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o4_g1() {
        use crate::ubeq::*;
        const N: usize = 19;
        assert!(<S4_1<()> as FixedSize>::SIZE == N && SIZE_S4_1 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S4_1::new(&b[..]);
        {
            let raw = field::<true>(&b[0..3], 4, 17);
            assert!(s.get_raw_f17() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f17() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S4_1::new(&mut c[..]); m.set_f17(v); }
            assert!(updated::<true>(&b[0..3], &c[0..3], 4, 17, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_1::new(&mut c[..]); m.set_raw_f17(r); }
            assert!(updated::<true>(&b[0..3], &c[0..3], 4, 17, r as u64) && others(&b, &c, 0, 3), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[3..7], 4, 24);
            assert!(s.get_raw_f24() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f24() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S4_1::new(&mut c[..]); m.set_f24(v); }
            assert!(updated::<true>(&b[3..7], &c[3..7], 4, 24, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_1::new(&mut c[..]); m.set_raw_f24(r); }
            assert!(updated::<true>(&b[3..7], &c[3..7], 4, 24, r as u64) && others(&b, &c, 3, 7), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[6..10], 4, 25);
            assert!(s.get_raw_f25() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f25() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S4_1::new(&mut c[..]); m.set_f25(v); }
            assert!(updated::<true>(&b[6..10], &c[6..10], 4, 25, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_1::new(&mut c[..]); m.set_raw_f25(r); }
            assert!(updated::<true>(&b[6..10], &c[6..10], 4, 25, r as u64) && others(&b, &c, 6, 10), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[10..15], 4, 32);
            assert!(s.get_raw_f32() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f32() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S4_1::new(&mut c[..]); m.set_f32(v); }
            assert!(updated::<true>(&b[10..15], &c[10..15], 4, 32, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 15), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_1::new(&mut c[..]); m.set_raw_f32(r); }
            assert!(updated::<true>(&b[10..15], &c[10..15], 4, 32, r as u64) && others(&b, &c, 10, 15), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[14..19], 4, 33);
            assert!(s.get_raw_f33() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f33() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S4_1::new(&mut c[..]); m.set_f33(v); }
            assert!(updated::<true>(&b[14..19], &c[14..19], 4, 33, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 14, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_1::new(&mut c[..]); m.set_raw_f33(r); }
            assert!(updated::<true>(&b[14..19], &c[14..19], 4, 33, r as u64) && others(&b, &c, 14, 19), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o4_g2() {
        use crate::ubeq::*;
        const N: usize = 37;
        assert!(<S4_2<()> as FixedSize>::SIZE == N && SIZE_S4_2 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S4_2::new(&b[..]);
        {
            let raw = field::<true>(&b[0..6], 4, 40);
            assert!(s.get_raw_f40() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f40() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S4_2::new(&mut c[..]); m.set_f40(v); }
            assert!(updated::<true>(&b[0..6], &c[0..6], 4, 40, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_2::new(&mut c[..]); m.set_raw_f40(r); }
            assert!(updated::<true>(&b[0..6], &c[0..6], 4, 40, r as u64) && others(&b, &c, 0, 6), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[5..13], 4, 56);
            assert!(s.get_raw_f56() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f56() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S4_2::new(&mut c[..]); m.set_f56(v); }
            assert!(updated::<true>(&b[5..13], &c[5..13], 4, 56, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_2::new(&mut c[..]); m.set_raw_f56(r); }
            assert!(updated::<true>(&b[5..13], &c[5..13], 4, 56, r as u64) && others(&b, &c, 5, 13), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[12..20], 4, 57);
            assert!(s.get_raw_f57() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f57() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S4_2::new(&mut c[..]); m.set_f57(v); }
            assert!(updated::<true>(&b[12..20], &c[12..20], 4, 57, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_2::new(&mut c[..]); m.set_raw_f57(r); }
            assert!(updated::<true>(&b[12..20], &c[12..20], 4, 57, r as u64) && others(&b, &c, 12, 20), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[20..29], 4, 63);
            assert!(s.get_raw_f63() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f63() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S4_2::new(&mut c[..]); m.set_f63(v); }
            assert!(updated::<true>(&b[20..29], &c[20..29], 4, 63, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_2::new(&mut c[..]); m.set_raw_f63(r); }
            assert!(updated::<true>(&b[20..29], &c[20..29], 4, 63, r as u64) && others(&b, &c, 20, 29), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[28..37], 4, 64);
            assert!(s.get_raw_f64() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f64() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S4_2::new(&mut c[..]); m.set_f64(v); }
            assert!(updated::<true>(&b[28..37], &c[28..37], 4, 64, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 28, 37), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_2::new(&mut c[..]); m.set_raw_f64(r); }
            assert!(updated::<true>(&b[28..37], &c[28..37], 4, 64, r as u64) && others(&b, &c, 28, 37), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o5_g0() {
        use crate::ubeq::*;
        const N: usize = 9;
        assert!(<S5_0<()> as FixedSize>::SIZE == N && SIZE_S5_0 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S5_0::new(&b[..]);
        {
            let raw = field::<true>(&b[0..1], 5, 1);
            assert!(s.get_raw_f1() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f1() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S5_0::new(&mut c[..]); m.set_f1(v); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 5, 1, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_0::new(&mut c[..]); m.set_raw_f1(r); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 5, 1, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[1..2], 5, 3);
            assert!(s.get_raw_f3() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f3() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S5_0::new(&mut c[..]); m.set_f3(v); }
            assert!(updated::<true>(&b[1..2], &c[1..2], 5, 3, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_0::new(&mut c[..]); m.set_raw_f3(r); }
            assert!(updated::<true>(&b[1..2], &c[1..2], 5, 3, r as u64) && others(&b, &c, 1, 2), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[2..4], 5, 7);
            assert!(s.get_raw_f7() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f7() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S5_0::new(&mut c[..]); m.set_f7(v); }
            assert!(updated::<true>(&b[2..4], &c[2..4], 5, 7, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_0::new(&mut c[..]); m.set_raw_f7(r); }
            assert!(updated::<true>(&b[2..4], &c[2..4], 5, 7, r as u64) && others(&b, &c, 2, 4), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[3..5], 5, 8);
            assert!(s.get_raw_f8() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f8() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S5_0::new(&mut c[..]); m.set_f8(v); }
            assert!(updated::<true>(&b[3..5], &c[3..5], 5, 8, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_0::new(&mut c[..]); m.set_raw_f8(r); }
            assert!(updated::<true>(&b[3..5], &c[3..5], 5, 8, r as u64) && others(&b, &c, 3, 5), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[4..6], 5, 9);
            assert!(s.get_raw_f9() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f9() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S5_0::new(&mut c[..]); m.set_f9(v); }
            assert!(updated::<true>(&b[4..6], &c[4..6], 5, 9, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_0::new(&mut c[..]); m.set_raw_f9(r); }
            assert!(updated::<true>(&b[4..6], &c[4..6], 5, 9, r as u64) && others(&b, &c, 4, 6), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[6..9], 5, 16);
            assert!(s.get_raw_f16() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f16() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S5_0::new(&mut c[..]); m.set_f16(v); }
            assert!(updated::<true>(&b[6..9], &c[6..9], 5, 16, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 9), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_0::new(&mut c[..]); m.set_raw_f16(r); }
            assert!(updated::<true>(&b[6..9], &c[6..9], 5, 16, r as u64) && others(&b, &c, 6, 9), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o5_g1() {
        use crate::ubeq::*;
        const N: usize = 19;
        assert!(<S5_1<()> as FixedSize>::SIZE == N && SIZE_S5_1 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S5_1::new(&b[..]);
        {
            let raw = field::<true>(&b[0..3], 5, 17);
            assert!(s.get_raw_f17() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f17() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S5_1::new(&mut c[..]); m.set_f17(v); }
            assert!(updated::<true>(&b[0..3], &c[0..3], 5, 17, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_1::new(&mut c[..]); m.set_raw_f17(r); }
            assert!(updated::<true>(&b[0..3], &c[0..3], 5, 17, r as u64) && others(&b, &c, 0, 3), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[3..7], 5, 24);
            assert!(s.get_raw_f24() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f24() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S5_1::new(&mut c[..]); m.set_f24(v); }
            assert!(updated::<true>(&b[3..7], &c[3..7], 5, 24, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_1::new(&mut c[..]); m.set_raw_f24(r); }
            assert!(updated::<true>(&b[3..7], &c[3..7], 5, 24, r as u64) && others(&b, &c, 3, 7), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[6..10], 5, 25);
            assert!(s.get_raw_f25() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f25() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S5_1::new(&mut c[..]); m.set_f25(v); }
            assert!(updated::<true>(&b[6..10], &c[6..10], 5, 25, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_1::new(&mut c[..]); m.set_raw_f25(r); }
            assert!(updated::<true>(&b[6..10], &c[6..10], 5, 25, r as u64) && others(&b, &c, 6, 10), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[10..15], 5, 32);
            assert!(s.get_raw_f32() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f32() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S5_1::new(&mut c[..]); m.set_f32(v); }
            assert!(updated::<true>(&b[10..15], &c[10..15], 5, 32, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 15), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_1::new(&mut c[..]); m.set_raw_f32(r); }
            assert!(updated::<true>(&b[10..15], &c[10..15], 5, 32, r as u64) && others(&b, &c, 10, 15), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[14..19], 5, 33);
            assert!(s.get_raw_f33() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f33() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S5_1::new(&mut c[..]); m.set_f33(v); }
            assert!(updated::<true>(&b[14..19], &c[14..19], 5, 33, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 14, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_1::new(&mut c[..]); m.set_raw_f33(r); }
            assert!(updated::<true>(&b[14..19], &c[14..19], 5, 33, r as u64) && others(&b, &c, 14, 19), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o5_g2() {
        use crate::ubeq::*;
        const N: usize = 37;
        assert!(<S5_2<()> as FixedSize>::SIZE == N && SIZE_S5_2 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S5_2::new(&b[..]);
        {
            let raw = field::<true>(&b[0..6], 5, 40);
            assert!(s.get_raw_f40() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f40() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S5_2::new(&mut c[..]); m.set_f40(v); }
            assert!(updated::<true>(&b[0..6], &c[0..6], 5, 40, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_2::new(&mut c[..]); m.set_raw_f40(r); }
            assert!(updated::<true>(&b[0..6], &c[0..6], 5, 40, r as u64) && others(&b, &c, 0, 6), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[5..13], 5, 56);
            assert!(s.get_raw_f56() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f56() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S5_2::new(&mut c[..]); m.set_f56(v); }
            assert!(updated::<true>(&b[5..13], &c[5..13], 5, 56, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_2::new(&mut c[..]); m.set_raw_f56(r); }
            assert!(updated::<true>(&b[5..13], &c[5..13], 5, 56, r as u64) && others(&b, &c, 5, 13), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[12..20], 5, 57);
            assert!(s.get_raw_f57() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f57() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S5_2::new(&mut c[..]); m.set_f57(v); }
            assert!(updated::<true>(&b[12..20], &c[12..20], 5, 57, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_2::new(&mut c[..]); m.set_raw_f57(r); }
            assert!(updated::<true>(&b[12..20], &c[12..20], 5, 57, r as u64) && others(&b, &c, 12, 20), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[20..29], 5, 63);
            assert!(s.get_raw_f63() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f63() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S5_2::new(&mut c[..]); m.set_f63(v); }
            assert!(updated::<true>(&b[20..29], &c[20..29], 5, 63, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_2::new(&mut c[..]); m.set_raw_f63(r); }
            assert!(updated::<true>(&b[20..29], &c[20..29], 5, 63, r as u64) && others(&b, &c, 20, 29), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[28..37], 5, 64);
            assert!(s.get_raw_f64() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f64() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S5_2::new(&mut c[..]); m.set_f64(v); }
            assert!(updated::<true>(&b[28..37], &c[28..37], 5, 64, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 28, 37), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_2::new(&mut c[..]); m.set_raw_f64(r); }
            assert!(updated::<true>(&b[28..37], &c[28..37], 5, 64, r as u64) && others(&b, &c, 28, 37), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o6_g0() {
        use crate::ubeq::*;
        const N: usize = 9;
        assert!(<S6_0<()> as FixedSize>::SIZE == N && SIZE_S6_0 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S6_0::new(&b[..]);
        {
            let raw = field::<true>(&b[0..1], 6, 1);
            assert!(s.get_raw_f1() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f1() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S6_0::new(&mut c[..]); m.set_f1(v); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 6, 1, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_0::new(&mut c[..]); m.set_raw_f1(r); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 6, 1, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[1..3], 6, 3);
            assert!(s.get_raw_f3() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f3() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S6_0::new(&mut c[..]); m.set_f3(v); }
            assert!(updated::<true>(&b[1..3], &c[1..3], 6, 3, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_0::new(&mut c[..]); m.set_raw_f3(r); }
            assert!(updated::<true>(&b[1..3], &c[1..3], 6, 3, r as u64) && others(&b, &c, 1, 3), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[2..4], 6, 7);
            assert!(s.get_raw_f7() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f7() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S6_0::new(&mut c[..]); m.set_f7(v); }
            assert!(updated::<true>(&b[2..4], &c[2..4], 6, 7, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_0::new(&mut c[..]); m.set_raw_f7(r); }
            assert!(updated::<true>(&b[2..4], &c[2..4], 6, 7, r as u64) && others(&b, &c, 2, 4), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[3..5], 6, 8);
            assert!(s.get_raw_f8() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f8() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S6_0::new(&mut c[..]); m.set_f8(v); }
            assert!(updated::<true>(&b[3..5], &c[3..5], 6, 8, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_0::new(&mut c[..]); m.set_raw_f8(r); }
            assert!(updated::<true>(&b[3..5], &c[3..5], 6, 8, r as u64) && others(&b, &c, 3, 5), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[4..6], 6, 9);
            assert!(s.get_raw_f9() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f9() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S6_0::new(&mut c[..]); m.set_f9(v); }
            assert!(updated::<true>(&b[4..6], &c[4..6], 6, 9, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_0::new(&mut c[..]); m.set_raw_f9(r); }
            assert!(updated::<true>(&b[4..6], &c[4..6], 6, 9, r as u64) && others(&b, &c, 4, 6), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[6..9], 6, 16);
            assert!(s.get_raw_f16() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f16() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S6_0::new(&mut c[..]); m.set_f16(v); }
            assert!(updated::<true>(&b[6..9], &c[6..9], 6, 16, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 9), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_0::new(&mut c[..]); m.set_raw_f16(r); }
            assert!(updated::<true>(&b[6..9], &c[6..9], 6, 16, r as u64) && others(&b, &c, 6, 9), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o6_g1() {
        use crate::ubeq::*;
        const N: usize = 19;
        assert!(<S6_1<()> as FixedSize>::SIZE == N && SIZE_S6_1 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S6_1::new(&b[..]);
        {
            let raw = field::<true>(&b[0..3], 6, 17);
            assert!(s.get_raw_f17() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f17() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S6_1::new(&mut c[..]); m.set_f17(v); }
            assert!(updated::<true>(&b[0..3], &c[0..3], 6, 17, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_1::new(&mut c[..]); m.set_raw_f17(r); }
            assert!(updated::<true>(&b[0..3], &c[0..3], 6, 17, r as u64) && others(&b, &c, 0, 3), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[3..7], 6, 24);
            assert!(s.get_raw_f24() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f24() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S6_1::new(&mut c[..]); m.set_f24(v); }
            assert!(updated::<true>(&b[3..7], &c[3..7], 6, 24, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_1::new(&mut c[..]); m.set_raw_f24(r); }
            assert!(updated::<true>(&b[3..7], &c[3..7], 6, 24, r as u64) && others(&b, &c, 3, 7), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[6..10], 6, 25);
            assert!(s.get_raw_f25() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f25() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S6_1::new(&mut c[..]); m.set_f25(v); }
            assert!(updated::<true>(&b[6..10], &c[6..10], 6, 25, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_1::new(&mut c[..]); m.set_raw_f25(r); }
            assert!(updated::<true>(&b[6..10], &c[6..10], 6, 25, r as u64) && others(&b, &c, 6, 10), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[10..15], 6, 32);
            assert!(s.get_raw_f32() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f32() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S6_1::new(&mut c[..]); m.set_f32(v); }
            assert!(updated::<true>(&b[10..15], &c[10..15], 6, 32, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 15), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_1::new(&mut c[..]); m.set_raw_f32(r); }
            assert!(updated::<true>(&b[10..15], &c[10..15], 6, 32, r as u64) && others(&b, &c, 10, 15), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[14..19], 6, 33);
            assert!(s.get_raw_f33() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f33() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S6_1::new(&mut c[..]); m.set_f33(v); }
            assert!(updated::<true>(&b[14..19], &c[14..19], 6, 33, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 14, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_1::new(&mut c[..]); m.set_raw_f33(r); }
            assert!(updated::<true>(&b[14..19], &c[14..19], 6, 33, r as u64) && others(&b, &c, 14, 19), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o6_g2() {
        use crate::ubeq::*;
        const N: usize = 37;
        assert!(<S6_2<()> as FixedSize>::SIZE == N && SIZE_S6_2 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S6_2::new(&b[..]);
        {
            let raw = field::<true>(&b[0..6], 6, 40);
            assert!(s.get_raw_f40() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f40() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S6_2::new(&mut c[..]); m.set_f40(v); }
            assert!(updated::<true>(&b[0..6], &c[0..6], 6, 40, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_2::new(&mut c[..]); m.set_raw_f40(r); }
            assert!(updated::<true>(&b[0..6], &c[0..6], 6, 40, r as u64) && others(&b, &c, 0, 6), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[5..13], 6, 56);
            assert!(s.get_raw_f56() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f56() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S6_2::new(&mut c[..]); m.set_f56(v); }
            assert!(updated::<true>(&b[5..13], &c[5..13], 6, 56, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_2::new(&mut c[..]); m.set_raw_f56(r); }
            assert!(updated::<true>(&b[5..13], &c[5..13], 6, 56, r as u64) && others(&b, &c, 5, 13), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[12..20], 6, 57);
            assert!(s.get_raw_f57() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f57() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S6_2::new(&mut c[..]); m.set_f57(v); }
            assert!(updated::<true>(&b[12..20], &c[12..20], 6, 57, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_2::new(&mut c[..]); m.set_raw_f57(r); }
            assert!(updated::<true>(&b[12..20], &c[12..20], 6, 57, r as u64) && others(&b, &c, 12, 20), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[20..29], 6, 63);
            assert!(s.get_raw_f63() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f63() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S6_2::new(&mut c[..]); m.set_f63(v); }
            assert!(updated::<true>(&b[20..29], &c[20..29], 6, 63, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_2::new(&mut c[..]); m.set_raw_f63(r); }
            assert!(updated::<true>(&b[20..29], &c[20..29], 6, 63, r as u64) && others(&b, &c, 20, 29), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[28..37], 6, 64);
            assert!(s.get_raw_f64() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f64() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S6_2::new(&mut c[..]); m.set_f64(v); }
            assert!(updated::<true>(&b[28..37], &c[28..37], 6, 64, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 28, 37), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_2::new(&mut c[..]); m.set_raw_f64(r); }
            assert!(updated::<true>(&b[28..37], &c[28..37], 6, 64, r as u64) && others(&b, &c, 28, 37), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o7_g0() {
        use crate::ubeq::*;
        const N: usize = 9;
        assert!(<S7_0<()> as FixedSize>::SIZE == N && SIZE_S7_0 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S7_0::new(&b[..]);
        {
            let raw = field::<true>(&b[0..1], 7, 1);
            assert!(s.get_raw_f1() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f1() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S7_0::new(&mut c[..]); m.set_f1(v); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 7, 1, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_0::new(&mut c[..]); m.set_raw_f1(r); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 7, 1, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[1..3], 7, 3);
            assert!(s.get_raw_f3() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f3() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S7_0::new(&mut c[..]); m.set_f3(v); }
            assert!(updated::<true>(&b[1..3], &c[1..3], 7, 3, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_0::new(&mut c[..]); m.set_raw_f3(r); }
            assert!(updated::<true>(&b[1..3], &c[1..3], 7, 3, r as u64) && others(&b, &c, 1, 3), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[2..4], 7, 7);
            assert!(s.get_raw_f7() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f7() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S7_0::new(&mut c[..]); m.set_f7(v); }
            assert!(updated::<true>(&b[2..4], &c[2..4], 7, 7, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_0::new(&mut c[..]); m.set_raw_f7(r); }
            assert!(updated::<true>(&b[2..4], &c[2..4], 7, 7, r as u64) && others(&b, &c, 2, 4), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[3..5], 7, 8);
            assert!(s.get_raw_f8() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f8() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S7_0::new(&mut c[..]); m.set_f8(v); }
            assert!(updated::<true>(&b[3..5], &c[3..5], 7, 8, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_0::new(&mut c[..]); m.set_raw_f8(r); }
            assert!(updated::<true>(&b[3..5], &c[3..5], 7, 8, r as u64) && others(&b, &c, 3, 5), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[4..6], 7, 9);
            assert!(s.get_raw_f9() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f9() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S7_0::new(&mut c[..]); m.set_f9(v); }
            assert!(updated::<true>(&b[4..6], &c[4..6], 7, 9, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_0::new(&mut c[..]); m.set_raw_f9(r); }
            assert!(updated::<true>(&b[4..6], &c[4..6], 7, 9, r as u64) && others(&b, &c, 4, 6), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[6..9], 7, 16);
            assert!(s.get_raw_f16() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f16() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S7_0::new(&mut c[..]); m.set_f16(v); }
            assert!(updated::<true>(&b[6..9], &c[6..9], 7, 16, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 9), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_0::new(&mut c[..]); m.set_raw_f16(r); }
            assert!(updated::<true>(&b[6..9], &c[6..9], 7, 16, r as u64) && others(&b, &c, 6, 9), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o7_g1() {
        use crate::ubeq::*;
        const N: usize = 19;
        assert!(<S7_1<()> as FixedSize>::SIZE == N && SIZE_S7_1 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S7_1::new(&b[..]);
        {
            let raw = field::<true>(&b[0..3], 7, 17);
            assert!(s.get_raw_f17() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f17() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S7_1::new(&mut c[..]); m.set_f17(v); }
            assert!(updated::<true>(&b[0..3], &c[0..3], 7, 17, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_1::new(&mut c[..]); m.set_raw_f17(r); }
            assert!(updated::<true>(&b[0..3], &c[0..3], 7, 17, r as u64) && others(&b, &c, 0, 3), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[3..7], 7, 24);
            assert!(s.get_raw_f24() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f24() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S7_1::new(&mut c[..]); m.set_f24(v); }
            assert!(updated::<true>(&b[3..7], &c[3..7], 7, 24, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_1::new(&mut c[..]); m.set_raw_f24(r); }
            assert!(updated::<true>(&b[3..7], &c[3..7], 7, 24, r as u64) && others(&b, &c, 3, 7), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[6..10], 7, 25);
            assert!(s.get_raw_f25() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f25() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S7_1::new(&mut c[..]); m.set_f25(v); }
            assert!(updated::<true>(&b[6..10], &c[6..10], 7, 25, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_1::new(&mut c[..]); m.set_raw_f25(r); }
            assert!(updated::<true>(&b[6..10], &c[6..10], 7, 25, r as u64) && others(&b, &c, 6, 10), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[10..15], 7, 32);
            assert!(s.get_raw_f32() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f32() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S7_1::new(&mut c[..]); m.set_f32(v); }
            assert!(updated::<true>(&b[10..15], &c[10..15], 7, 32, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 15), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_1::new(&mut c[..]); m.set_raw_f32(r); }
            assert!(updated::<true>(&b[10..15], &c[10..15], 7, 32, r as u64) && others(&b, &c, 10, 15), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[14..19], 7, 33);
            assert!(s.get_raw_f33() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f33() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S7_1::new(&mut c[..]); m.set_f33(v); }
            assert!(updated::<true>(&b[14..19], &c[14..19], 7, 33, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 14, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_1::new(&mut c[..]); m.set_raw_f33(r); }
            assert!(updated::<true>(&b[14..19], &c[14..19], 7, 33, r as u64) && others(&b, &c, 14, 19), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o7_g2() {
        use crate::ubeq::*;
        const N: usize = 37;
        assert!(<S7_2<()> as FixedSize>::SIZE == N && SIZE_S7_2 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S7_2::new(&b[..]);
        {
            let raw = field::<true>(&b[0..6], 7, 40);
            assert!(s.get_raw_f40() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f40() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S7_2::new(&mut c[..]); m.set_f40(v); }
            assert!(updated::<true>(&b[0..6], &c[0..6], 7, 40, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_2::new(&mut c[..]); m.set_raw_f40(r); }
            assert!(updated::<true>(&b[0..6], &c[0..6], 7, 40, r as u64) && others(&b, &c, 0, 6), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[5..13], 7, 56);
            assert!(s.get_raw_f56() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f56() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S7_2::new(&mut c[..]); m.set_f56(v); }
            assert!(updated::<true>(&b[5..13], &c[5..13], 7, 56, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_2::new(&mut c[..]); m.set_raw_f56(r); }
            assert!(updated::<true>(&b[5..13], &c[5..13], 7, 56, r as u64) && others(&b, &c, 5, 13), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[12..20], 7, 57);
            assert!(s.get_raw_f57() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f57() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S7_2::new(&mut c[..]); m.set_f57(v); }
            assert!(updated::<true>(&b[12..20], &c[12..20], 7, 57, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_2::new(&mut c[..]); m.set_raw_f57(r); }
            assert!(updated::<true>(&b[12..20], &c[12..20], 7, 57, r as u64) && others(&b, &c, 12, 20), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[20..29], 7, 63);
            assert!(s.get_raw_f63() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f63() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S7_2::new(&mut c[..]); m.set_f63(v); }
            assert!(updated::<true>(&b[20..29], &c[20..29], 7, 63, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_2::new(&mut c[..]); m.set_raw_f63(r); }
            assert!(updated::<true>(&b[20..29], &c[20..29], 7, 63, r as u64) && others(&b, &c, 20, 29), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[28..37], 7, 64);
            assert!(s.get_raw_f64() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f64() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S7_2::new(&mut c[..]); m.set_f64(v); }
            assert!(updated::<true>(&b[28..37], &c[28..37], 7, 64, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 28, 37), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_2::new(&mut c[..]); m.set_raw_f64(r); }
            assert!(updated::<true>(&b[28..37], &c[28..37], 7, 64, r as u64) && others(&b, &c, 28, 37), "the raw setter replaces the bits of the field only");
        }
    }
}
#[cfg(feature = "ileq")]
mod ileq {
    use crate::spec::*;
    use bp3d_proto::util::FixedSize;
    #[kani::proof]
    fn o0_g0() {
        use crate::ileq::*;
        const N: usize = 8;
        assert!(<S0_0<()> as FixedSize>::SIZE == N && SIZE_S0_0 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S0_0::new(&b[..]);
        {
            let raw = field::<false>(&b[0..1], 0, 1);
            assert!(s.get_raw_f1() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 63) as i64) >> 63;
            assert!(s.get_f1() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_0::new(&mut c[..]); m.set_f1(v); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 0, 1, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_0::new(&mut c[..]); m.set_raw_f1(r); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 0, 1, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 0 && v as i64 <= (1u64 << 0) as i64 - 1 || 1 == 64 {
                let mut c = b;
                { let mut m = S0_0::new(&mut c[..]); m.set_f1(v); }
                assert!(S0_0::new(&c[..]).get_f1() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[1..2], 0, 3);
            assert!(s.get_raw_f3() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 61) as i64) >> 61;
            assert!(s.get_f3() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_0::new(&mut c[..]); m.set_f3(v); }
            assert!(updated::<false>(&b[1..2], &c[1..2], 0, 3, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_0::new(&mut c[..]); m.set_raw_f3(r); }
            assert!(updated::<false>(&b[1..2], &c[1..2], 0, 3, r as u64) && others(&b, &c, 1, 2), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 2 && v as i64 <= (1u64 << 2) as i64 - 1 || 3 == 64 {
                let mut c = b;
                { let mut m = S0_0::new(&mut c[..]); m.set_f3(v); }
                assert!(S0_0::new(&c[..]).get_f3() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[2..3], 0, 7);
            assert!(s.get_raw_f7() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 57) as i64) >> 57;
            assert!(s.get_f7() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_0::new(&mut c[..]); m.set_f7(v); }
            assert!(updated::<false>(&b[2..3], &c[2..3], 0, 7, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_0::new(&mut c[..]); m.set_raw_f7(r); }
            assert!(updated::<false>(&b[2..3], &c[2..3], 0, 7, r as u64) && others(&b, &c, 2, 3), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 6 && v as i64 <= (1u64 << 6) as i64 - 1 || 7 == 64 {
                let mut c = b;
                { let mut m = S0_0::new(&mut c[..]); m.set_f7(v); }
                assert!(S0_0::new(&c[..]).get_f7() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[3..4], 0, 8);
            assert!(s.get_raw_f8() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 56) as i64) >> 56;
            assert!(s.get_f8() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_0::new(&mut c[..]); m.set_f8(v); }
            assert!(updated::<false>(&b[3..4], &c[3..4], 0, 8, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_0::new(&mut c[..]); m.set_raw_f8(r); }
            assert!(updated::<false>(&b[3..4], &c[3..4], 0, 8, r as u64) && others(&b, &c, 3, 4), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 7 && v as i64 <= (1u64 << 7) as i64 - 1 || 8 == 64 {
                let mut c = b;
                { let mut m = S0_0::new(&mut c[..]); m.set_f8(v); }
                assert!(S0_0::new(&c[..]).get_f8() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[4..6], 0, 9);
            assert!(s.get_raw_f9() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 55) as i64) >> 55;
            assert!(s.get_f9() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_0::new(&mut c[..]); m.set_f9(v); }
            assert!(updated::<false>(&b[4..6], &c[4..6], 0, 9, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_0::new(&mut c[..]); m.set_raw_f9(r); }
            assert!(updated::<false>(&b[4..6], &c[4..6], 0, 9, r as u64) && others(&b, &c, 4, 6), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 8 && v as i64 <= (1u64 << 8) as i64 - 1 || 9 == 64 {
                let mut c = b;
                { let mut m = S0_0::new(&mut c[..]); m.set_f9(v); }
                assert!(S0_0::new(&c[..]).get_f9() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[6..8], 0, 16);
            assert!(s.get_raw_f16() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 48) as i64) >> 48;
            assert!(s.get_f16() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_0::new(&mut c[..]); m.set_f16(v); }
            assert!(updated::<false>(&b[6..8], &c[6..8], 0, 16, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_0::new(&mut c[..]); m.set_raw_f16(r); }
            assert!(updated::<false>(&b[6..8], &c[6..8], 0, 16, r as u64) && others(&b, &c, 6, 8), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 15 && v as i64 <= (1u64 << 15) as i64 - 1 || 16 == 64 {
                let mut c = b;
                { let mut m = S0_0::new(&mut c[..]); m.set_f16(v); }
                assert!(S0_0::new(&c[..]).get_f16() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o0_g1() {
        use crate::ileq::*;
        const N: usize = 19;
        assert!(<S0_1<()> as FixedSize>::SIZE == N && SIZE_S0_1 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S0_1::new(&b[..]);
        {
            let raw = field::<false>(&b[0..3], 0, 17);
            assert!(s.get_raw_f17() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 47) as i64) >> 47;
            assert!(s.get_f17() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_1::new(&mut c[..]); m.set_f17(v); }
            assert!(updated::<false>(&b[0..3], &c[0..3], 0, 17, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_1::new(&mut c[..]); m.set_raw_f17(r); }
            assert!(updated::<false>(&b[0..3], &c[0..3], 0, 17, r as u64) && others(&b, &c, 0, 3), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 16 && v as i64 <= (1u64 << 16) as i64 - 1 || 17 == 64 {
                let mut c = b;
                { let mut m = S0_1::new(&mut c[..]); m.set_f17(v); }
                assert!(S0_1::new(&c[..]).get_f17() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[3..6], 0, 24);
            assert!(s.get_raw_f24() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 40) as i64) >> 40;
            assert!(s.get_f24() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_1::new(&mut c[..]); m.set_f24(v); }
            assert!(updated::<false>(&b[3..6], &c[3..6], 0, 24, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_1::new(&mut c[..]); m.set_raw_f24(r); }
            assert!(updated::<false>(&b[3..6], &c[3..6], 0, 24, r as u64) && others(&b, &c, 3, 6), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 23 && v as i64 <= (1u64 << 23) as i64 - 1 || 24 == 64 {
                let mut c = b;
                { let mut m = S0_1::new(&mut c[..]); m.set_f24(v); }
                assert!(S0_1::new(&c[..]).get_f24() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[6..10], 0, 25);
            assert!(s.get_raw_f25() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 39) as i64) >> 39;
            assert!(s.get_f25() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_1::new(&mut c[..]); m.set_f25(v); }
            assert!(updated::<false>(&b[6..10], &c[6..10], 0, 25, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_1::new(&mut c[..]); m.set_raw_f25(r); }
            assert!(updated::<false>(&b[6..10], &c[6..10], 0, 25, r as u64) && others(&b, &c, 6, 10), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 24 && v as i64 <= (1u64 << 24) as i64 - 1 || 25 == 64 {
                let mut c = b;
                { let mut m = S0_1::new(&mut c[..]); m.set_f25(v); }
                assert!(S0_1::new(&c[..]).get_f25() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[10..14], 0, 32);
            assert!(s.get_raw_f32() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 32) as i64) >> 32;
            assert!(s.get_f32() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_1::new(&mut c[..]); m.set_f32(v); }
            assert!(updated::<false>(&b[10..14], &c[10..14], 0, 32, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 14), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_1::new(&mut c[..]); m.set_raw_f32(r); }
            assert!(updated::<false>(&b[10..14], &c[10..14], 0, 32, r as u64) && others(&b, &c, 10, 14), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 31 && v as i64 <= (1u64 << 31) as i64 - 1 || 32 == 64 {
                let mut c = b;
                { let mut m = S0_1::new(&mut c[..]); m.set_f32(v); }
                assert!(S0_1::new(&c[..]).get_f32() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[14..19], 0, 33);
            assert!(s.get_raw_f33() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 31) as i64) >> 31;
            assert!(s.get_f33() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_1::new(&mut c[..]); m.set_f33(v); }
            assert!(updated::<false>(&b[14..19], &c[14..19], 0, 33, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 14, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_1::new(&mut c[..]); m.set_raw_f33(r); }
            assert!(updated::<false>(&b[14..19], &c[14..19], 0, 33, r as u64) && others(&b, &c, 14, 19), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 32 && v as i64 <= (1u64 << 32) as i64 - 1 || 33 == 64 {
                let mut c = b;
                { let mut m = S0_1::new(&mut c[..]); m.set_f33(v); }
                assert!(S0_1::new(&c[..]).get_f33() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o0_g2() {
        use crate::ileq::*;
        const N: usize = 36;
        assert!(<S0_2<()> as FixedSize>::SIZE == N && SIZE_S0_2 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S0_2::new(&b[..]);
        {
            let raw = field::<false>(&b[0..5], 0, 40);
            assert!(s.get_raw_f40() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 24) as i64) >> 24;
            assert!(s.get_f40() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_2::new(&mut c[..]); m.set_f40(v); }
            assert!(updated::<false>(&b[0..5], &c[0..5], 0, 40, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_2::new(&mut c[..]); m.set_raw_f40(r); }
            assert!(updated::<false>(&b[0..5], &c[0..5], 0, 40, r as u64) && others(&b, &c, 0, 5), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 39 && v as i64 <= (1u64 << 39) as i64 - 1 || 40 == 64 {
                let mut c = b;
                { let mut m = S0_2::new(&mut c[..]); m.set_f40(v); }
                assert!(S0_2::new(&c[..]).get_f40() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[5..12], 0, 56);
            assert!(s.get_raw_f56() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 8) as i64) >> 8;
            assert!(s.get_f56() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_2::new(&mut c[..]); m.set_f56(v); }
            assert!(updated::<false>(&b[5..12], &c[5..12], 0, 56, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 12), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_2::new(&mut c[..]); m.set_raw_f56(r); }
            assert!(updated::<false>(&b[5..12], &c[5..12], 0, 56, r as u64) && others(&b, &c, 5, 12), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 55 && v as i64 <= (1u64 << 55) as i64 - 1 || 56 == 64 {
                let mut c = b;
                { let mut m = S0_2::new(&mut c[..]); m.set_f56(v); }
                assert!(S0_2::new(&c[..]).get_f56() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[12..20], 0, 57);
            assert!(s.get_raw_f57() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 7) as i64) >> 7;
            assert!(s.get_f57() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_2::new(&mut c[..]); m.set_f57(v); }
            assert!(updated::<false>(&b[12..20], &c[12..20], 0, 57, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_2::new(&mut c[..]); m.set_raw_f57(r); }
            assert!(updated::<false>(&b[12..20], &c[12..20], 0, 57, r as u64) && others(&b, &c, 12, 20), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 56 && v as i64 <= (1u64 << 56) as i64 - 1 || 57 == 64 {
                let mut c = b;
                { let mut m = S0_2::new(&mut c[..]); m.set_f57(v); }
                assert!(S0_2::new(&c[..]).get_f57() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[20..28], 0, 63);
            assert!(s.get_raw_f63() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 1) as i64) >> 1;
            assert!(s.get_f63() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_2::new(&mut c[..]); m.set_f63(v); }
            assert!(updated::<false>(&b[20..28], &c[20..28], 0, 63, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 28), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_2::new(&mut c[..]); m.set_raw_f63(r); }
            assert!(updated::<false>(&b[20..28], &c[20..28], 0, 63, r as u64) && others(&b, &c, 20, 28), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 62 && v as i64 <= (1u64 << 62) as i64 - 1 || 63 == 64 {
                let mut c = b;
                { let mut m = S0_2::new(&mut c[..]); m.set_f63(v); }
                assert!(S0_2::new(&c[..]).get_f63() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[28..36], 0, 64);
            assert!(s.get_raw_f64() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 0) as i64) >> 0;
            assert!(s.get_f64() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_2::new(&mut c[..]); m.set_f64(v); }
            assert!(updated::<false>(&b[28..36], &c[28..36], 0, 64, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 28, 36), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_2::new(&mut c[..]); m.set_raw_f64(r); }
            assert!(updated::<false>(&b[28..36], &c[28..36], 0, 64, r as u64) && others(&b, &c, 28, 36), "the raw setter replaces the bits of the field only");
            {
                let mut c = b;
                { let mut m = S0_2::new(&mut c[..]); m.set_f64(v); }
                assert!(S0_2::new(&c[..]).get_f64() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o1_g0() {
        use crate::ileq::*;
        const N: usize = 9;
        assert!(<S1_0<()> as FixedSize>::SIZE == N && SIZE_S1_0 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S1_0::new(&b[..]);
        {
            let raw = field::<false>(&b[0..1], 1, 1);
            assert!(s.get_raw_f1() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 63) as i64) >> 63;
            assert!(s.get_f1() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_0::new(&mut c[..]); m.set_f1(v); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 1, 1, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_0::new(&mut c[..]); m.set_raw_f1(r); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 1, 1, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 0 && v as i64 <= (1u64 << 0) as i64 - 1 || 1 == 64 {
                let mut c = b;
                { let mut m = S1_0::new(&mut c[..]); m.set_f1(v); }
                assert!(S1_0::new(&c[..]).get_f1() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[1..2], 1, 3);
            assert!(s.get_raw_f3() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 61) as i64) >> 61;
            assert!(s.get_f3() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_0::new(&mut c[..]); m.set_f3(v); }
            assert!(updated::<false>(&b[1..2], &c[1..2], 1, 3, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_0::new(&mut c[..]); m.set_raw_f3(r); }
            assert!(updated::<false>(&b[1..2], &c[1..2], 1, 3, r as u64) && others(&b, &c, 1, 2), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 2 && v as i64 <= (1u64 << 2) as i64 - 1 || 3 == 64 {
                let mut c = b;
                { let mut m = S1_0::new(&mut c[..]); m.set_f3(v); }
                assert!(S1_0::new(&c[..]).get_f3() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[2..3], 1, 7);
            assert!(s.get_raw_f7() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 57) as i64) >> 57;
            assert!(s.get_f7() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_0::new(&mut c[..]); m.set_f7(v); }
            assert!(updated::<false>(&b[2..3], &c[2..3], 1, 7, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_0::new(&mut c[..]); m.set_raw_f7(r); }
            assert!(updated::<false>(&b[2..3], &c[2..3], 1, 7, r as u64) && others(&b, &c, 2, 3), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 6 && v as i64 <= (1u64 << 6) as i64 - 1 || 7 == 64 {
                let mut c = b;
                { let mut m = S1_0::new(&mut c[..]); m.set_f7(v); }
                assert!(S1_0::new(&c[..]).get_f7() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[3..5], 1, 8);
            assert!(s.get_raw_f8() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 56) as i64) >> 56;
            assert!(s.get_f8() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_0::new(&mut c[..]); m.set_f8(v); }
            assert!(updated::<false>(&b[3..5], &c[3..5], 1, 8, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_0::new(&mut c[..]); m.set_raw_f8(r); }
            assert!(updated::<false>(&b[3..5], &c[3..5], 1, 8, r as u64) && others(&b, &c, 3, 5), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 7 && v as i64 <= (1u64 << 7) as i64 - 1 || 8 == 64 {
                let mut c = b;
                { let mut m = S1_0::new(&mut c[..]); m.set_f8(v); }
                assert!(S1_0::new(&c[..]).get_f8() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[4..6], 1, 9);
            assert!(s.get_raw_f9() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 55) as i64) >> 55;
            assert!(s.get_f9() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_0::new(&mut c[..]); m.set_f9(v); }
            assert!(updated::<false>(&b[4..6], &c[4..6], 1, 9, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_0::new(&mut c[..]); m.set_raw_f9(r); }
            assert!(updated::<false>(&b[4..6], &c[4..6], 1, 9, r as u64) && others(&b, &c, 4, 6), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 8 && v as i64 <= (1u64 << 8) as i64 - 1 || 9 == 64 {
                let mut c = b;
                { let mut m = S1_0::new(&mut c[..]); m.set_f9(v); }
                assert!(S1_0::new(&c[..]).get_f9() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[6..9], 1, 16);
            assert!(s.get_raw_f16() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 48) as i64) >> 48;
            assert!(s.get_f16() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_0::new(&mut c[..]); m.set_f16(v); }
            assert!(updated::<false>(&b[6..9], &c[6..9], 1, 16, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 9), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_0::new(&mut c[..]); m.set_raw_f16(r); }
            assert!(updated::<false>(&b[6..9], &c[6..9], 1, 16, r as u64) && others(&b, &c, 6, 9), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 15 && v as i64 <= (1u64 << 15) as i64 - 1 || 16 == 64 {
                let mut c = b;
                { let mut m = S1_0::new(&mut c[..]); m.set_f16(v); }
                assert!(S1_0::new(&c[..]).get_f16() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o1_g1() {
        use crate::ileq::*;
        const N: usize = 19;
        assert!(<S1_1<()> as FixedSize>::SIZE == N && SIZE_S1_1 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S1_1::new(&b[..]);
        {
            let raw = field::<false>(&b[0..3], 1, 17);
            assert!(s.get_raw_f17() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 47) as i64) >> 47;
            assert!(s.get_f17() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_1::new(&mut c[..]); m.set_f17(v); }
            assert!(updated::<false>(&b[0..3], &c[0..3], 1, 17, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_1::new(&mut c[..]); m.set_raw_f17(r); }
            assert!(updated::<false>(&b[0..3], &c[0..3], 1, 17, r as u64) && others(&b, &c, 0, 3), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 16 && v as i64 <= (1u64 << 16) as i64 - 1 || 17 == 64 {
                let mut c = b;
                { let mut m = S1_1::new(&mut c[..]); m.set_f17(v); }
                assert!(S1_1::new(&c[..]).get_f17() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[3..7], 1, 24);
            assert!(s.get_raw_f24() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 40) as i64) >> 40;
            assert!(s.get_f24() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_1::new(&mut c[..]); m.set_f24(v); }
            assert!(updated::<false>(&b[3..7], &c[3..7], 1, 24, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_1::new(&mut c[..]); m.set_raw_f24(r); }
            assert!(updated::<false>(&b[3..7], &c[3..7], 1, 24, r as u64) && others(&b, &c, 3, 7), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 23 && v as i64 <= (1u64 << 23) as i64 - 1 || 24 == 64 {
                let mut c = b;
                { let mut m = S1_1::new(&mut c[..]); m.set_f24(v); }
                assert!(S1_1::new(&c[..]).get_f24() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[6..10], 1, 25);
            assert!(s.get_raw_f25() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 39) as i64) >> 39;
            assert!(s.get_f25() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_1::new(&mut c[..]); m.set_f25(v); }
            assert!(updated::<false>(&b[6..10], &c[6..10], 1, 25, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_1::new(&mut c[..]); m.set_raw_f25(r); }
            assert!(updated::<false>(&b[6..10], &c[6..10], 1, 25, r as u64) && others(&b, &c, 6, 10), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 24 && v as i64 <= (1u64 << 24) as i64 - 1 || 25 == 64 {
                let mut c = b;
                { let mut m = S1_1::new(&mut c[..]); m.set_f25(v); }
                assert!(S1_1::new(&c[..]).get_f25() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[10..15], 1, 32);
            assert!(s.get_raw_f32() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 32) as i64) >> 32;
            assert!(s.get_f32() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_1::new(&mut c[..]); m.set_f32(v); }
            assert!(updated::<false>(&b[10..15], &c[10..15], 1, 32, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 15), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_1::new(&mut c[..]); m.set_raw_f32(r); }
            assert!(updated::<false>(&b[10..15], &c[10..15], 1, 32, r as u64) && others(&b, &c, 10, 15), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 31 && v as i64 <= (1u64 << 31) as i64 - 1 || 32 == 64 {
                let mut c = b;
                { let mut m = S1_1::new(&mut c[..]); m.set_f32(v); }
                assert!(S1_1::new(&c[..]).get_f32() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[14..19], 1, 33);
            assert!(s.get_raw_f33() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 31) as i64) >> 31;
            assert!(s.get_f33() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_1::new(&mut c[..]); m.set_f33(v); }
            assert!(updated::<false>(&b[14..19], &c[14..19], 1, 33, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 14, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_1::new(&mut c[..]); m.set_raw_f33(r); }
            assert!(updated::<false>(&b[14..19], &c[14..19], 1, 33, r as u64) && others(&b, &c, 14, 19), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 32 && v as i64 <= (1u64 << 32) as i64 - 1 || 33 == 64 {
                let mut c = b;
                { let mut m = S1_1::new(&mut c[..]); m.set_f33(v); }
                assert!(S1_1::new(&c[..]).get_f33() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o1_g2() {
        use crate::ileq::*;
        const N: usize = 37;
        assert!(<S1_2<()> as FixedSize>::SIZE == N && SIZE_S1_2 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S1_2::new(&b[..]);
        {
            let raw = field::<false>(&b[0..6], 1, 40);
            assert!(s.get_raw_f40() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 24) as i64) >> 24;
            assert!(s.get_f40() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_2::new(&mut c[..]); m.set_f40(v); }
            assert!(updated::<false>(&b[0..6], &c[0..6], 1, 40, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_2::new(&mut c[..]); m.set_raw_f40(r); }
            assert!(updated::<false>(&b[0..6], &c[0..6], 1, 40, r as u64) && others(&b, &c, 0, 6), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 39 && v as i64 <= (1u64 << 39) as i64 - 1 || 40 == 64 {
                let mut c = b;
                { let mut m = S1_2::new(&mut c[..]); m.set_f40(v); }
                assert!(S1_2::new(&c[..]).get_f40() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[5..13], 1, 56);
            assert!(s.get_raw_f56() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 8) as i64) >> 8;
            assert!(s.get_f56() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_2::new(&mut c[..]); m.set_f56(v); }
            assert!(updated::<false>(&b[5..13], &c[5..13], 1, 56, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_2::new(&mut c[..]); m.set_raw_f56(r); }
            assert!(updated::<false>(&b[5..13], &c[5..13], 1, 56, r as u64) && others(&b, &c, 5, 13), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 55 && v as i64 <= (1u64 << 55) as i64 - 1 || 56 == 64 {
                let mut c = b;
                { let mut m = S1_2::new(&mut c[..]); m.set_f56(v); }
                assert!(S1_2::new(&c[..]).get_f56() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[12..20], 1, 57);
            assert!(s.get_raw_f57() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 7) as i64) >> 7;
            assert!(s.get_f57() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_2::new(&mut c[..]); m.set_f57(v); }
            assert!(updated::<false>(&b[12..20], &c[12..20], 1, 57, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_2::new(&mut c[..]); m.set_raw_f57(r); }
            assert!(updated::<false>(&b[12..20], &c[12..20], 1, 57, r as u64) && others(&b, &c, 12, 20), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 56 && v as i64 <= (1u64 << 56) as i64 - 1 || 57 == 64 {
                let mut c = b;
                { let mut m = S1_2::new(&mut c[..]); m.set_f57(v); }
                assert!(S1_2::new(&c[..]).get_f57() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[20..28], 1, 63);
            assert!(s.get_raw_f63() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 1) as i64) >> 1;
            assert!(s.get_f63() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_2::new(&mut c[..]); m.set_f63(v); }
            assert!(updated::<false>(&b[20..28], &c[20..28], 1, 63, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 28), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_2::new(&mut c[..]); m.set_raw_f63(r); }
            assert!(updated::<false>(&b[20..28], &c[20..28], 1, 63, r as u64) && others(&b, &c, 20, 28), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 62 && v as i64 <= (1u64 << 62) as i64 - 1 || 63 == 64 {
                let mut c = b;
                { let mut m = S1_2::new(&mut c[..]); m.set_f63(v); }
                assert!(S1_2::new(&c[..]).get_f63() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[28..37], 1, 64);
            assert!(s.get_raw_f64() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 0) as i64) >> 0;
            assert!(s.get_f64() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_2::new(&mut c[..]); m.set_f64(v); }
            assert!(updated::<false>(&b[28..37], &c[28..37], 1, 64, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 28, 37), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_2::new(&mut c[..]); m.set_raw_f64(r); }
            assert!(updated::<false>(&b[28..37], &c[28..37], 1, 64, r as u64) && others(&b, &c, 28, 37), "the raw setter replaces the bits of the field only");
            {
                let mut c = b;
                { let mut m = S1_2::new(&mut c[..]); m.set_f64(v); }
                assert!(S1_2::new(&c[..]).get_f64() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o2_g0() {
        use crate::ileq::*;
        const N: usize = 9;
        assert!(<S2_0<()> as FixedSize>::SIZE == N && SIZE_S2_0 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S2_0::new(&b[..]);
        {
            let raw = field::<false>(&b[0..1], 2, 1);
            assert!(s.get_raw_f1() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 63) as i64) >> 63;
            assert!(s.get_f1() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_0::new(&mut c[..]); m.set_f1(v); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 2, 1, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_0::new(&mut c[..]); m.set_raw_f1(r); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 2, 1, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 0 && v as i64 <= (1u64 << 0) as i64 - 1 || 1 == 64 {
                let mut c = b;
                { let mut m = S2_0::new(&mut c[..]); m.set_f1(v); }
                assert!(S2_0::new(&c[..]).get_f1() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[1..2], 2, 3);
            assert!(s.get_raw_f3() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 61) as i64) >> 61;
            assert!(s.get_f3() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_0::new(&mut c[..]); m.set_f3(v); }
            assert!(updated::<false>(&b[1..2], &c[1..2], 2, 3, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_0::new(&mut c[..]); m.set_raw_f3(r); }
            assert!(updated::<false>(&b[1..2], &c[1..2], 2, 3, r as u64) && others(&b, &c, 1, 2), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 2 && v as i64 <= (1u64 << 2) as i64 - 1 || 3 == 64 {
                let mut c = b;
                { let mut m = S2_0::new(&mut c[..]); m.set_f3(v); }
                assert!(S2_0::new(&c[..]).get_f3() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[2..4], 2, 7);
            assert!(s.get_raw_f7() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 57) as i64) >> 57;
            assert!(s.get_f7() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_0::new(&mut c[..]); m.set_f7(v); }
            assert!(updated::<false>(&b[2..4], &c[2..4], 2, 7, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_0::new(&mut c[..]); m.set_raw_f7(r); }
            assert!(updated::<false>(&b[2..4], &c[2..4], 2, 7, r as u64) && others(&b, &c, 2, 4), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 6 && v as i64 <= (1u64 << 6) as i64 - 1 || 7 == 64 {
                let mut c = b;
                { let mut m = S2_0::new(&mut c[..]); m.set_f7(v); }
                assert!(S2_0::new(&c[..]).get_f7() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[3..5], 2, 8);
            assert!(s.get_raw_f8() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 56) as i64) >> 56;
            assert!(s.get_f8() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_0::new(&mut c[..]); m.set_f8(v); }
            assert!(updated::<false>(&b[3..5], &c[3..5], 2, 8, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_0::new(&mut c[..]); m.set_raw_f8(r); }
            assert!(updated::<false>(&b[3..5], &c[3..5], 2, 8, r as u64) && others(&b, &c, 3, 5), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 7 && v as i64 <= (1u64 << 7) as i64 - 1 || 8 == 64 {
                let mut c = b;
                { let mut m = S2_0::new(&mut c[..]); m.set_f8(v); }
                assert!(S2_0::new(&c[..]).get_f8() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[4..6], 2, 9);
            assert!(s.get_raw_f9() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 55) as i64) >> 55;
            assert!(s.get_f9() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_0::new(&mut c[..]); m.set_f9(v); }
            assert!(updated::<false>(&b[4..6], &c[4..6], 2, 9, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_0::new(&mut c[..]); m.set_raw_f9(r); }
            assert!(updated::<false>(&b[4..6], &c[4..6], 2, 9, r as u64) && others(&b, &c, 4, 6), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 8 && v as i64 <= (1u64 << 8) as i64 - 1 || 9 == 64 {
                let mut c = b;
                { let mut m = S2_0::new(&mut c[..]); m.set_f9(v); }
                assert!(S2_0::new(&c[..]).get_f9() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[6..9], 2, 16);
            assert!(s.get_raw_f16() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 48) as i64) >> 48;
            assert!(s.get_f16() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_0::new(&mut c[..]); m.set_f16(v); }
            assert!(updated::<false>(&b[6..9], &c[6..9], 2, 16, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 9), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_0::new(&mut c[..]); m.set_raw_f16(r); }
            assert!(updated::<false>(&b[6..9], &c[6..9], 2, 16, r as u64) && others(&b, &c, 6, 9), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 15 && v as i64 <= (1u64 << 15) as i64 - 1 || 16 == 64 {
                let mut c = b;
                { let mut m = S2_0::new(&mut c[..]); m.set_f16(v); }
                assert!(S2_0::new(&c[..]).get_f16() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o2_g1() {
        use crate::ileq::*;
        const N: usize = 19;
        assert!(<S2_1<()> as FixedSize>::SIZE == N && SIZE_S2_1 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S2_1::new(&b[..]);
        {
            let raw = field::<false>(&b[0..3], 2, 17);
            assert!(s.get_raw_f17() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 47) as i64) >> 47;
            assert!(s.get_f17() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_1::new(&mut c[..]); m.set_f17(v); }
            assert!(updated::<false>(&b[0..3], &c[0..3], 2, 17, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_1::new(&mut c[..]); m.set_raw_f17(r); }
            assert!(updated::<false>(&b[0..3], &c[0..3], 2, 17, r as u64) && others(&b, &c, 0, 3), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 16 && v as i64 <= (1u64 << 16) as i64 - 1 || 17 == 64 {
                let mut c = b;
                { let mut m = S2_1::new(&mut c[..]); m.set_f17(v); }
                assert!(S2_1::new(&c[..]).get_f17() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[3..7], 2, 24);
            assert!(s.get_raw_f24() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 40) as i64) >> 40;
            assert!(s.get_f24() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_1::new(&mut c[..]); m.set_f24(v); }
            assert!(updated::<false>(&b[3..7], &c[3..7], 2, 24, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_1::new(&mut c[..]); m.set_raw_f24(r); }
            assert!(updated::<false>(&b[3..7], &c[3..7], 2, 24, r as u64) && others(&b, &c, 3, 7), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 23 && v as i64 <= (1u64 << 23) as i64 - 1 || 24 == 64 {
                let mut c = b;
                { let mut m = S2_1::new(&mut c[..]); m.set_f24(v); }
                assert!(S2_1::new(&c[..]).get_f24() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[6..10], 2, 25);
            assert!(s.get_raw_f25() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 39) as i64) >> 39;
            assert!(s.get_f25() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_1::new(&mut c[..]); m.set_f25(v); }
            assert!(updated::<false>(&b[6..10], &c[6..10], 2, 25, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_1::new(&mut c[..]); m.set_raw_f25(r); }
            assert!(updated::<false>(&b[6..10], &c[6..10], 2, 25, r as u64) && others(&b, &c, 6, 10), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 24 && v as i64 <= (1u64 << 24) as i64 - 1 || 25 == 64 {
                let mut c = b;
                { let mut m = S2_1::new(&mut c[..]); m.set_f25(v); }
                assert!(S2_1::new(&c[..]).get_f25() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[10..15], 2, 32);
            assert!(s.get_raw_f32() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 32) as i64) >> 32;
            assert!(s.get_f32() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_1::new(&mut c[..]); m.set_f32(v); }
            assert!(updated::<false>(&b[10..15], &c[10..15], 2, 32, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 15), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_1::new(&mut c[..]); m.set_raw_f32(r); }
            assert!(updated::<false>(&b[10..15], &c[10..15], 2, 32, r as u64) && others(&b, &c, 10, 15), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 31 && v as i64 <= (1u64 << 31) as i64 - 1 || 32 == 64 {
                let mut c = b;
                { let mut m = S2_1::new(&mut c[..]); m.set_f32(v); }
                assert!(S2_1::new(&c[..]).get_f32() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[14..19], 2, 33);
            assert!(s.get_raw_f33() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 31) as i64) >> 31;
            assert!(s.get_f33() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_1::new(&mut c[..]); m.set_f33(v); }
            assert!(updated::<false>(&b[14..19], &c[14..19], 2, 33, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 14, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_1::new(&mut c[..]); m.set_raw_f33(r); }
            assert!(updated::<false>(&b[14..19], &c[14..19], 2, 33, r as u64) && others(&b, &c, 14, 19), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 32 && v as i64 <= (1u64 << 32) as i64 - 1 || 33 == 64 {
                let mut c = b;
                { let mut m = S2_1::new(&mut c[..]); m.set_f33(v); }
                assert!(S2_1::new(&c[..]).get_f33() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o2_g2() {
        use crate::ileq::*;
        const N: usize = 37;
        assert!(<S2_2<()> as FixedSize>::SIZE == N && SIZE_S2_2 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S2_2::new(&b[..]);
        {
            let raw = field::<false>(&b[0..6], 2, 40);
            assert!(s.get_raw_f40() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 24) as i64) >> 24;
            assert!(s.get_f40() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_2::new(&mut c[..]); m.set_f40(v); }
            assert!(updated::<false>(&b[0..6], &c[0..6], 2, 40, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_2::new(&mut c[..]); m.set_raw_f40(r); }
            assert!(updated::<false>(&b[0..6], &c[0..6], 2, 40, r as u64) && others(&b, &c, 0, 6), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 39 && v as i64 <= (1u64 << 39) as i64 - 1 || 40 == 64 {
                let mut c = b;
                { let mut m = S2_2::new(&mut c[..]); m.set_f40(v); }
                assert!(S2_2::new(&c[..]).get_f40() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[5..13], 2, 56);
            assert!(s.get_raw_f56() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 8) as i64) >> 8;
            assert!(s.get_f56() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_2::new(&mut c[..]); m.set_f56(v); }
            assert!(updated::<false>(&b[5..13], &c[5..13], 2, 56, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_2::new(&mut c[..]); m.set_raw_f56(r); }
            assert!(updated::<false>(&b[5..13], &c[5..13], 2, 56, r as u64) && others(&b, &c, 5, 13), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 55 && v as i64 <= (1u64 << 55) as i64 - 1 || 56 == 64 {
                let mut c = b;
                { let mut m = S2_2::new(&mut c[..]); m.set_f56(v); }
                assert!(S2_2::new(&c[..]).get_f56() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[12..20], 2, 57);
            assert!(s.get_raw_f57() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 7) as i64) >> 7;
            assert!(s.get_f57() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_2::new(&mut c[..]); m.set_f57(v); }
            assert!(updated::<false>(&b[12..20], &c[12..20], 2, 57, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_2::new(&mut c[..]); m.set_raw_f57(r); }
            assert!(updated::<false>(&b[12..20], &c[12..20], 2, 57, r as u64) && others(&b, &c, 12, 20), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 56 && v as i64 <= (1u64 << 56) as i64 - 1 || 57 == 64 {
                let mut c = b;
                { let mut m = S2_2::new(&mut c[..]); m.set_f57(v); }
                assert!(S2_2::new(&c[..]).get_f57() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[20..29], 2, 63);
            assert!(s.get_raw_f63() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 1) as i64) >> 1;
            assert!(s.get_f63() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_2::new(&mut c[..]); m.set_f63(v); }
            assert!(updated::<false>(&b[20..29], &c[20..29], 2, 63, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_2::new(&mut c[..]); m.set_raw_f63(r); }
            assert!(updated::<false>(&b[20..29], &c[20..29], 2, 63, r as u64) && others(&b, &c, 20, 29), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 62 && v as i64 <= (1u64 << 62) as i64 - 1 || 63 == 64 {
                let mut c = b;
                { let mut m = S2_2::new(&mut c[..]); m.set_f63(v); }
                assert!(S2_2::new(&c[..]).get_f63() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[28..37], 2, 64);
            assert!(s.get_raw_f64() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 0) as i64) >> 0;
            assert!(s.get_f64() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_2::new(&mut c[..]); m.set_f64(v); }
            assert!(updated::<false>(&b[28..37], &c[28..37], 2, 64, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 28, 37), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_2::new(&mut c[..]); m.set_raw_f64(r); }
            assert!(updated::<false>(&b[28..37], &c[28..37], 2, 64, r as u64) && others(&b, &c, 28, 37), "the raw setter replaces the bits of the field only");
            {
                let mut c = b;
                { let mut m = S2_2::new(&mut c[..]); m.set_f64(v); }
                assert!(S2_2::new(&c[..]).get_f64() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o3_g0() {
        use crate::ileq::*;
        const N: usize = 9;
        assert!(<S3_0<()> as FixedSize>::SIZE == N && SIZE_S3_0 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S3_0::new(&b[..]);
        {
            let raw = field::<false>(&b[0..1], 3, 1);
            assert!(s.get_raw_f1() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 63) as i64) >> 63;
            assert!(s.get_f1() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_0::new(&mut c[..]); m.set_f1(v); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 3, 1, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_0::new(&mut c[..]); m.set_raw_f1(r); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 3, 1, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 0 && v as i64 <= (1u64 << 0) as i64 - 1 || 1 == 64 {
                let mut c = b;
                { let mut m = S3_0::new(&mut c[..]); m.set_f1(v); }
                assert!(S3_0::new(&c[..]).get_f1() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[1..2], 3, 3);
            assert!(s.get_raw_f3() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 61) as i64) >> 61;
            assert!(s.get_f3() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_0::new(&mut c[..]); m.set_f3(v); }
            assert!(updated::<false>(&b[1..2], &c[1..2], 3, 3, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_0::new(&mut c[..]); m.set_raw_f3(r); }
            assert!(updated::<false>(&b[1..2], &c[1..2], 3, 3, r as u64) && others(&b, &c, 1, 2), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 2 && v as i64 <= (1u64 << 2) as i64 - 1 || 3 == 64 {
                let mut c = b;
                { let mut m = S3_0::new(&mut c[..]); m.set_f3(v); }
                assert!(S3_0::new(&c[..]).get_f3() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[2..4], 3, 7);
            assert!(s.get_raw_f7() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 57) as i64) >> 57;
            assert!(s.get_f7() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_0::new(&mut c[..]); m.set_f7(v); }
            assert!(updated::<false>(&b[2..4], &c[2..4], 3, 7, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_0::new(&mut c[..]); m.set_raw_f7(r); }
            assert!(updated::<false>(&b[2..4], &c[2..4], 3, 7, r as u64) && others(&b, &c, 2, 4), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 6 && v as i64 <= (1u64 << 6) as i64 - 1 || 7 == 64 {
                let mut c = b;
                { let mut m = S3_0::new(&mut c[..]); m.set_f7(v); }
                assert!(S3_0::new(&c[..]).get_f7() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[3..5], 3, 8);
            assert!(s.get_raw_f8() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 56) as i64) >> 56;
            assert!(s.get_f8() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_0::new(&mut c[..]); m.set_f8(v); }
            assert!(updated::<false>(&b[3..5], &c[3..5], 3, 8, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_0::new(&mut c[..]); m.set_raw_f8(r); }
            assert!(updated::<false>(&b[3..5], &c[3..5], 3, 8, r as u64) && others(&b, &c, 3, 5), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 7 && v as i64 <= (1u64 << 7) as i64 - 1 || 8 == 64 {
                let mut c = b;
                { let mut m = S3_0::new(&mut c[..]); m.set_f8(v); }
                assert!(S3_0::new(&c[..]).get_f8() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[4..6], 3, 9);
            assert!(s.get_raw_f9() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 55) as i64) >> 55;
            assert!(s.get_f9() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_0::new(&mut c[..]); m.set_f9(v); }
            assert!(updated::<false>(&b[4..6], &c[4..6], 3, 9, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_0::new(&mut c[..]); m.set_raw_f9(r); }
            assert!(updated::<false>(&b[4..6], &c[4..6], 3, 9, r as u64) && others(&b, &c, 4, 6), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 8 && v as i64 <= (1u64 << 8) as i64 - 1 || 9 == 64 {
                let mut c = b;
                { let mut m = S3_0::new(&mut c[..]); m.set_f9(v); }
                assert!(S3_0::new(&c[..]).get_f9() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[6..9], 3, 16);
            assert!(s.get_raw_f16() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 48) as i64) >> 48;
            assert!(s.get_f16() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_0::new(&mut c[..]); m.set_f16(v); }
            assert!(updated::<false>(&b[6..9], &c[6..9], 3, 16, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 9), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_0::new(&mut c[..]); m.set_raw_f16(r); }
            assert!(updated::<false>(&b[6..9], &c[6..9], 3, 16, r as u64) && others(&b, &c, 6, 9), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 15 && v as i64 <= (1u64 << 15) as i64 - 1 || 16 == 64 {
                let mut c = b;
                { let mut m = S3_0::new(&mut c[..]); m.set_f16(v); }
                assert!(S3_0::new(&c[..]).get_f16() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o3_g1() {
        use crate::ileq::*;
        const N: usize = 19;
        assert!(<S3_1<()> as FixedSize>::SIZE == N && SIZE_S3_1 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S3_1::new(&b[..]);
        {
            let raw = field::<false>(&b[0..3], 3, 17);
            assert!(s.get_raw_f17() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 47) as i64) >> 47;
            assert!(s.get_f17() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_1::new(&mut c[..]); m.set_f17(v); }
            assert!(updated::<false>(&b[0..3], &c[0..3], 3, 17, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_1::new(&mut c[..]); m.set_raw_f17(r); }
            assert!(updated::<false>(&b[0..3], &c[0..3], 3, 17, r as u64) && others(&b, &c, 0, 3), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 16 && v as i64 <= (1u64 << 16) as i64 - 1 || 17 == 64 {
                let mut c = b;
                { let mut m = S3_1::new(&mut c[..]); m.set_f17(v); }
                assert!(S3_1::new(&c[..]).get_f17() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[3..7], 3, 24);
            assert!(s.get_raw_f24() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 40) as i64) >> 40;
            assert!(s.get_f24() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_1::new(&mut c[..]); m.set_f24(v); }
            assert!(updated::<false>(&b[3..7], &c[3..7], 3, 24, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_1::new(&mut c[..]); m.set_raw_f24(r); }
            assert!(updated::<false>(&b[3..7], &c[3..7], 3, 24, r as u64) && others(&b, &c, 3, 7), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 23 && v as i64 <= (1u64 << 23) as i64 - 1 || 24 == 64 {
                let mut c = b;
                { let mut m = S3_1::new(&mut c[..]); m.set_f24(v); }
                assert!(S3_1::new(&c[..]).get_f24() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[6..10], 3, 25);
            assert!(s.get_raw_f25() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 39) as i64) >> 39;
            assert!(s.get_f25() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_1::new(&mut c[..]); m.set_f25(v); }
            assert!(updated::<false>(&b[6..10], &c[6..10], 3, 25, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_1::new(&mut c[..]); m.set_raw_f25(r); }
            assert!(updated::<false>(&b[6..10], &c[6..10], 3, 25, r as u64) && others(&b, &c, 6, 10), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 24 && v as i64 <= (1u64 << 24) as i64 - 1 || 25 == 64 {
                let mut c = b;
                { let mut m = S3_1::new(&mut c[..]); m.set_f25(v); }
                assert!(S3_1::new(&c[..]).get_f25() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[10..15], 3, 32);
            assert!(s.get_raw_f32() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 32) as i64) >> 32;
            assert!(s.get_f32() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_1::new(&mut c[..]); m.set_f32(v); }
            assert!(updated::<false>(&b[10..15], &c[10..15], 3, 32, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 15), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_1::new(&mut c[..]); m.set_raw_f32(r); }
            assert!(updated::<false>(&b[10..15], &c[10..15], 3, 32, r as u64) && others(&b, &c, 10, 15), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 31 && v as i64 <= (1u64 << 31) as i64 - 1 || 32 == 64 {
                let mut c = b;
                { let mut m = S3_1::new(&mut c[..]); m.set_f32(v); }
                assert!(S3_1::new(&c[..]).get_f32() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[14..19], 3, 33);
            assert!(s.get_raw_f33() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 31) as i64) >> 31;
            assert!(s.get_f33() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_1::new(&mut c[..]); m.set_f33(v); }
            assert!(updated::<false>(&b[14..19], &c[14..19], 3, 33, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 14, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_1::new(&mut c[..]); m.set_raw_f33(r); }
            assert!(updated::<false>(&b[14..19], &c[14..19], 3, 33, r as u64) && others(&b, &c, 14, 19), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 32 && v as i64 <= (1u64 << 32) as i64 - 1 || 33 == 64 {
                let mut c = b;
                { let mut m = S3_1::new(&mut c[..]); m.set_f33(v); }
                assert!(S3_1::new(&c[..]).get_f33() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o3_g2() {
        use crate::ileq::*;
        const N: usize = 37;
        assert!(<S3_2<()> as FixedSize>::SIZE == N && SIZE_S3_2 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S3_2::new(&b[..]);
        {
            let raw = field::<false>(&b[0..6], 3, 40);
            assert!(s.get_raw_f40() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 24) as i64) >> 24;
            assert!(s.get_f40() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_2::new(&mut c[..]); m.set_f40(v); }
            assert!(updated::<false>(&b[0..6], &c[0..6], 3, 40, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_2::new(&mut c[..]); m.set_raw_f40(r); }
            assert!(updated::<false>(&b[0..6], &c[0..6], 3, 40, r as u64) && others(&b, &c, 0, 6), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 39 && v as i64 <= (1u64 << 39) as i64 - 1 || 40 == 64 {
                let mut c = b;
                { let mut m = S3_2::new(&mut c[..]); m.set_f40(v); }
                assert!(S3_2::new(&c[..]).get_f40() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[5..13], 3, 56);
            assert!(s.get_raw_f56() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 8) as i64) >> 8;
            assert!(s.get_f56() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_2::new(&mut c[..]); m.set_f56(v); }
            assert!(updated::<false>(&b[5..13], &c[5..13], 3, 56, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_2::new(&mut c[..]); m.set_raw_f56(r); }
            assert!(updated::<false>(&b[5..13], &c[5..13], 3, 56, r as u64) && others(&b, &c, 5, 13), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 55 && v as i64 <= (1u64 << 55) as i64 - 1 || 56 == 64 {
                let mut c = b;
                { let mut m = S3_2::new(&mut c[..]); m.set_f56(v); }
                assert!(S3_2::new(&c[..]).get_f56() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[12..20], 3, 57);
            assert!(s.get_raw_f57() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 7) as i64) >> 7;
            assert!(s.get_f57() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_2::new(&mut c[..]); m.set_f57(v); }
            assert!(updated::<false>(&b[12..20], &c[12..20], 3, 57, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_2::new(&mut c[..]); m.set_raw_f57(r); }
            assert!(updated::<false>(&b[12..20], &c[12..20], 3, 57, r as u64) && others(&b, &c, 12, 20), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 56 && v as i64 <= (1u64 << 56) as i64 - 1 || 57 == 64 {
                let mut c = b;
                { let mut m = S3_2::new(&mut c[..]); m.set_f57(v); }
                assert!(S3_2::new(&c[..]).get_f57() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[20..29], 3, 63);
            assert!(s.get_raw_f63() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 1) as i64) >> 1;
            assert!(s.get_f63() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_2::new(&mut c[..]); m.set_f63(v); }
            assert!(updated::<false>(&b[20..29], &c[20..29], 3, 63, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_2::new(&mut c[..]); m.set_raw_f63(r); }
            assert!(updated::<false>(&b[20..29], &c[20..29], 3, 63, r as u64) && others(&b, &c, 20, 29), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 62 && v as i64 <= (1u64 << 62) as i64 - 1 || 63 == 64 {
                let mut c = b;
                { let mut m = S3_2::new(&mut c[..]); m.set_f63(v); }
                assert!(S3_2::new(&c[..]).get_f63() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[28..37], 3, 64);
            assert!(s.get_raw_f64() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 0) as i64) >> 0;
            assert!(s.get_f64() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_2::new(&mut c[..]); m.set_f64(v); }
            assert!(updated::<false>(&b[28..37], &c[28..37], 3, 64, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 28, 37), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_2::new(&mut c[..]); m.set_raw_f64(r); }
            assert!(updated::<false>(&b[28..37], &c[28..37], 3, 64, r as u64) && others(&b, &c, 28, 37), "the raw setter replaces the bits of the field only");
            {
                let mut c = b;
                { let mut m = S3_2::new(&mut c[..]); m.set_f64(v); }
                assert!(S3_2::new(&c[..]).get_f64() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o4_g0() {
        use crate::ileq::*;
        const N: usize = 9;
        assert!(<S4_0<()> as FixedSize>::SIZE == N && SIZE_S4_0 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S4_0::new(&b[..]);
        {
            let raw = field::<false>(&b[0..1], 4, 1);
            assert!(s.get_raw_f1() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 63) as i64) >> 63;
            assert!(s.get_f1() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_0::new(&mut c[..]); m.set_f1(v); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 4, 1, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_0::new(&mut c[..]); m.set_raw_f1(r); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 4, 1, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 0 && v as i64 <= (1u64 << 0) as i64 - 1 || 1 == 64 {
                let mut c = b;
                { let mut m = S4_0::new(&mut c[..]); m.set_f1(v); }
                assert!(S4_0::new(&c[..]).get_f1() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[1..2], 4, 3);
            assert!(s.get_raw_f3() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 61) as i64) >> 61;
            assert!(s.get_f3() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_0::new(&mut c[..]); m.set_f3(v); }
            assert!(updated::<false>(&b[1..2], &c[1..2], 4, 3, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_0::new(&mut c[..]); m.set_raw_f3(r); }
            assert!(updated::<false>(&b[1..2], &c[1..2], 4, 3, r as u64) && others(&b, &c, 1, 2), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 2 && v as i64 <= (1u64 << 2) as i64 - 1 || 3 == 64 {
                let mut c = b;
                { let mut m = S4_0::new(&mut c[..]); m.set_f3(v); }
                assert!(S4_0::new(&c[..]).get_f3() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[2..4], 4, 7);
            assert!(s.get_raw_f7() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 57) as i64) >> 57;
            assert!(s.get_f7() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_0::new(&mut c[..]); m.set_f7(v); }
            assert!(updated::<false>(&b[2..4], &c[2..4], 4, 7, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_0::new(&mut c[..]); m.set_raw_f7(r); }
            assert!(updated::<false>(&b[2..4], &c[2..4], 4, 7, r as u64) && others(&b, &c, 2, 4), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 6 && v as i64 <= (1u64 << 6) as i64 - 1 || 7 == 64 {
                let mut c = b;
                { let mut m = S4_0::new(&mut c[..]); m.set_f7(v); }
                assert!(S4_0::new(&c[..]).get_f7() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[3..5], 4, 8);
            assert!(s.get_raw_f8() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 56) as i64) >> 56;
            assert!(s.get_f8() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_0::new(&mut c[..]); m.set_f8(v); }
            assert!(updated::<false>(&b[3..5], &c[3..5], 4, 8, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_0::new(&mut c[..]); m.set_raw_f8(r); }
            assert!(updated::<false>(&b[3..5], &c[3..5], 4, 8, r as u64) && others(&b, &c, 3, 5), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 7 && v as i64 <= (1u64 << 7) as i64 - 1 || 8 == 64 {
                let mut c = b;
                { let mut m = S4_0::new(&mut c[..]); m.set_f8(v); }
                assert!(S4_0::new(&c[..]).get_f8() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[4..6], 4, 9);
            assert!(s.get_raw_f9() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 55) as i64) >> 55;
            assert!(s.get_f9() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_0::new(&mut c[..]); m.set_f9(v); }
            assert!(updated::<false>(&b[4..6], &c[4..6], 4, 9, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_0::new(&mut c[..]); m.set_raw_f9(r); }
            assert!(updated::<false>(&b[4..6], &c[4..6], 4, 9, r as u64) && others(&b, &c, 4, 6), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 8 && v as i64 <= (1u64 << 8) as i64 - 1 || 9 == 64 {
                let mut c = b;
                { let mut m = S4_0::new(&mut c[..]); m.set_f9(v); }
                assert!(S4_0::new(&c[..]).get_f9() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[6..9], 4, 16);
            assert!(s.get_raw_f16() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 48) as i64) >> 48;
            assert!(s.get_f16() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_0::new(&mut c[..]); m.set_f16(v); }
            assert!(updated::<false>(&b[6..9], &c[6..9], 4, 16, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 9), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_0::new(&mut c[..]); m.set_raw_f16(r); }
            assert!(updated::<false>(&b[6..9], &c[6..9], 4, 16, r as u64) && others(&b, &c, 6, 9), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 15 && v as i64 <= (1u64 << 15) as i64 - 1 || 16 == 64 {
                let mut c = b;
                { let mut m = S4_0::new(&mut c[..]); m.set_f16(v); }
                assert!(S4_0::new(&c[..]).get_f16() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o4_g1() {
        use crate::ileq::*;
        const N: usize = 19;
        assert!(<S4_1<()> as FixedSize>::SIZE == N && SIZE_S4_1 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S4_1::new(&b[..]);
        {
            let raw = field::<false>(&b[0..3], 4, 17);
            assert!(s.get_raw_f17() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 47) as i64) >> 47;
            assert!(s.get_f17() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_1::new(&mut c[..]); m.set_f17(v); }
            assert!(updated::<false>(&b[0..3], &c[0..3], 4, 17, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_1::new(&mut c[..]); m.set_raw_f17(r); }
            assert!(updated::<false>(&b[0..3], &c[0..3], 4, 17, r as u64) && others(&b, &c, 0, 3), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 16 && v as i64 <= (1u64 << 16) as i64 - 1 || 17 == 64 {
                let mut c = b;
                { let mut m = S4_1::new(&mut c[..]); m.set_f17(v); }
                assert!(S4_1::new(&c[..]).get_f17() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[3..7], 4, 24);
            assert!(s.get_raw_f24() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 40) as i64) >> 40;
            assert!(s.get_f24() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_1::new(&mut c[..]); m.set_f24(v); }
            assert!(updated::<false>(&b[3..7], &c[3..7], 4, 24, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_1::new(&mut c[..]); m.set_raw_f24(r); }
            assert!(updated::<false>(&b[3..7], &c[3..7], 4, 24, r as u64) && others(&b, &c, 3, 7), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 23 && v as i64 <= (1u64 << 23) as i64 - 1 || 24 == 64 {
                let mut c = b;
                { let mut m = S4_1::new(&mut c[..]); m.set_f24(v); }
                assert!(S4_1::new(&c[..]).get_f24() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[6..10], 4, 25);
            assert!(s.get_raw_f25() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 39) as i64) >> 39;
            assert!(s.get_f25() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_1::new(&mut c[..]); m.set_f25(v); }
            assert!(updated::<false>(&b[6..10], &c[6..10], 4, 25, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_1::new(&mut c[..]); m.set_raw_f25(r); }
            assert!(updated::<false>(&b[6..10], &c[6..10], 4, 25, r as u64) && others(&b, &c, 6, 10), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 24 && v as i64 <= (1u64 << 24) as i64 - 1 || 25 == 64 {
                let mut c = b;
                { let mut m = S4_1::new(&mut c[..]); m.set_f25(v); }
                assert!(S4_1::new(&c[..]).get_f25() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[10..15], 4, 32);
            assert!(s.get_raw_f32() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 32) as i64) >> 32;
            assert!(s.get_f32() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_1::new(&mut c[..]); m.set_f32(v); }
            assert!(updated::<false>(&b[10..15], &c[10..15], 4, 32, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 15), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_1::new(&mut c[..]); m.set_raw_f32(r); }
            assert!(updated::<false>(&b[10..15], &c[10..15], 4, 32, r as u64) && others(&b, &c, 10, 15), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 31 && v as i64 <= (1u64 << 31) as i64 - 1 || 32 == 64 {
                let mut c = b;
                { let mut m = S4_1::new(&mut c[..]); m.set_f32(v); }
                assert!(S4_1::new(&c[..]).get_f32() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[14..19], 4, 33);
            assert!(s.get_raw_f33() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 31) as i64) >> 31;
            assert!(s.get_f33() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_1::new(&mut c[..]); m.set_f33(v); }
            assert!(updated::<false>(&b[14..19], &c[14..19], 4, 33, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 14, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_1::new(&mut c[..]); m.set_raw_f33(r); }
            assert!(updated::<false>(&b[14..19], &c[14..19], 4, 33, r as u64) && others(&b, &c, 14, 19), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 32 && v as i64 <= (1u64 << 32) as i64 - 1 || 33 == 64 {
                let mut c = b;
                { let mut m = S4_1::new(&mut c[..]); m.set_f33(v); }
                assert!(S4_1::new(&c[..]).get_f33() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o4_g2() {
        use crate::ileq::*;
        const N: usize = 37;
        assert!(<S4_2<()> as FixedSize>::SIZE == N && SIZE_S4_2 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S4_2::new(&b[..]);
        {
            let raw = field::<false>(&b[0..6], 4, 40);
            assert!(s.get_raw_f40() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 24) as i64) >> 24;
            assert!(s.get_f40() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_2::new(&mut c[..]); m.set_f40(v); }
            assert!(updated::<false>(&b[0..6], &c[0..6], 4, 40, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_2::new(&mut c[..]); m.set_raw_f40(r); }
            assert!(updated::<false>(&b[0..6], &c[0..6], 4, 40, r as u64) && others(&b, &c, 0, 6), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 39 && v as i64 <= (1u64 << 39) as i64 - 1 || 40 == 64 {
                let mut c = b;
                { let mut m = S4_2::new(&mut c[..]); m.set_f40(v); }
                assert!(S4_2::new(&c[..]).get_f40() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[5..13], 4, 56);
            assert!(s.get_raw_f56() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 8) as i64) >> 8;
            assert!(s.get_f56() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_2::new(&mut c[..]); m.set_f56(v); }
            assert!(updated::<false>(&b[5..13], &c[5..13], 4, 56, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_2::new(&mut c[..]); m.set_raw_f56(r); }
            assert!(updated::<false>(&b[5..13], &c[5..13], 4, 56, r as u64) && others(&b, &c, 5, 13), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 55 && v as i64 <= (1u64 << 55) as i64 - 1 || 56 == 64 {
                let mut c = b;
                { let mut m = S4_2::new(&mut c[..]); m.set_f56(v); }
                assert!(S4_2::new(&c[..]).get_f56() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[12..20], 4, 57);
            assert!(s.get_raw_f57() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 7) as i64) >> 7;
            assert!(s.get_f57() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_2::new(&mut c[..]); m.set_f57(v); }
            assert!(updated::<false>(&b[12..20], &c[12..20], 4, 57, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_2::new(&mut c[..]); m.set_raw_f57(r); }
            assert!(updated::<false>(&b[12..20], &c[12..20], 4, 57, r as u64) && others(&b, &c, 12, 20), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 56 && v as i64 <= (1u64 << 56) as i64 - 1 || 57 == 64 {
                let mut c = b;
                { let mut m = S4_2::new(&mut c[..]); m.set_f57(v); }
                assert!(S4_2::new(&c[..]).get_f57() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[20..29], 4, 63);
            assert!(s.get_raw_f63() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 1) as i64) >> 1;
            assert!(s.get_f63() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_2::new(&mut c[..]); m.set_f63(v); }
            assert!(updated::<false>(&b[20..29], &c[20..29], 4, 63, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_2::new(&mut c[..]); m.set_raw_f63(r); }
            assert!(updated::<false>(&b[20..29], &c[20..29], 4, 63, r as u64) && others(&b, &c, 20, 29), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 62 && v as i64 <= (1u64 << 62) as i64 - 1 || 63 == 64 {
                let mut c = b;
                { let mut m = S4_2::new(&mut c[..]); m.set_f63(v); }
                assert!(S4_2::new(&c[..]).get_f63() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[28..37], 4, 64);
            assert!(s.get_raw_f64() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 0) as i64) >> 0;
            assert!(s.get_f64() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_2::new(&mut c[..]); m.set_f64(v); }
            assert!(updated::<false>(&b[28..37], &c[28..37], 4, 64, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 28, 37), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_2::new(&mut c[..]); m.set_raw_f64(r); }
            assert!(updated::<false>(&b[28..37], &c[28..37], 4, 64, r as u64) && others(&b, &c, 28, 37), "the raw setter replaces the bits of the field only");
            {
                let mut c = b;
                { let mut m = S4_2::new(&mut c[..]); m.set_f64(v); }
                assert!(S4_2::new(&c[..]).get_f64() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o5_g0() {
        use crate::ileq::*;
        const N: usize = 9;
        assert!(<S5_0<()> as FixedSize>::SIZE == N && SIZE_S5_0 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S5_0::new(&b[..]);
        {
            let raw = field::<false>(&b[0..1], 5, 1);
            assert!(s.get_raw_f1() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 63) as i64) >> 63;
            assert!(s.get_f1() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_0::new(&mut c[..]); m.set_f1(v); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 5, 1, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_0::new(&mut c[..]); m.set_raw_f1(r); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 5, 1, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 0 && v as i64 <= (1u64 << 0) as i64 - 1 || 1 == 64 {
                let mut c = b;
                { let mut m = S5_0::new(&mut c[..]); m.set_f1(v); }
                assert!(S5_0::new(&c[..]).get_f1() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[1..2], 5, 3);
            assert!(s.get_raw_f3() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 61) as i64) >> 61;
            assert!(s.get_f3() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_0::new(&mut c[..]); m.set_f3(v); }
            assert!(updated::<false>(&b[1..2], &c[1..2], 5, 3, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_0::new(&mut c[..]); m.set_raw_f3(r); }
            assert!(updated::<false>(&b[1..2], &c[1..2], 5, 3, r as u64) && others(&b, &c, 1, 2), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 2 && v as i64 <= (1u64 << 2) as i64 - 1 || 3 == 64 {
                let mut c = b;
                { let mut m = S5_0::new(&mut c[..]); m.set_f3(v); }
                assert!(S5_0::new(&c[..]).get_f3() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[2..4], 5, 7);
            assert!(s.get_raw_f7() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 57) as i64) >> 57;
            assert!(s.get_f7() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_0::new(&mut c[..]); m.set_f7(v); }
            assert!(updated::<false>(&b[2..4], &c[2..4], 5, 7, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_0::new(&mut c[..]); m.set_raw_f7(r); }
            assert!(updated::<false>(&b[2..4], &c[2..4], 5, 7, r as u64) && others(&b, &c, 2, 4), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 6 && v as i64 <= (1u64 << 6) as i64 - 1 || 7 == 64 {
                let mut c = b;
                { let mut m = S5_0::new(&mut c[..]); m.set_f7(v); }
                assert!(S5_0::new(&c[..]).get_f7() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[3..5], 5, 8);
            assert!(s.get_raw_f8() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 56) as i64) >> 56;
            assert!(s.get_f8() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_0::new(&mut c[..]); m.set_f8(v); }
            assert!(updated::<false>(&b[3..5], &c[3..5], 5, 8, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_0::new(&mut c[..]); m.set_raw_f8(r); }
            assert!(updated::<false>(&b[3..5], &c[3..5], 5, 8, r as u64) && others(&b, &c, 3, 5), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 7 && v as i64 <= (1u64 << 7) as i64 - 1 || 8 == 64 {
                let mut c = b;
                { let mut m = S5_0::new(&mut c[..]); m.set_f8(v); }
                assert!(S5_0::new(&c[..]).get_f8() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[4..6], 5, 9);
            assert!(s.get_raw_f9() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 55) as i64) >> 55;
            assert!(s.get_f9() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_0::new(&mut c[..]); m.set_f9(v); }
            assert!(updated::<false>(&b[4..6], &c[4..6], 5, 9, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_0::new(&mut c[..]); m.set_raw_f9(r); }
            assert!(updated::<false>(&b[4..6], &c[4..6], 5, 9, r as u64) && others(&b, &c, 4, 6), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 8 && v as i64 <= (1u64 << 8) as i64 - 1 || 9 == 64 {
                let mut c = b;
                { let mut m = S5_0::new(&mut c[..]); m.set_f9(v); }
                assert!(S5_0::new(&c[..]).get_f9() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[6..9], 5, 16);
            assert!(s.get_raw_f16() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 48) as i64) >> 48;
            assert!(s.get_f16() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_0::new(&mut c[..]); m.set_f16(v); }
            assert!(updated::<false>(&b[6..9], &c[6..9], 5, 16, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 9), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_0::new(&mut c[..]); m.set_raw_f16(r); }
            assert!(updated::<false>(&b[6..9], &c[6..9], 5, 16, r as u64) && others(&b, &c, 6, 9), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 15 && v as i64 <= (1u64 << 15) as i64 - 1 || 16 == 64 {
                let mut c = b;
                { let mut m = S5_0::new(&mut c[..]); m.set_f16(v); }
                assert!(S5_0::new(&c[..]).get_f16() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o5_g1() {
        use crate::ileq::*;
        const N: usize = 19;
        assert!(<S5_1<()> as FixedSize>::SIZE == N && SIZE_S5_1 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S5_1::new(&b[..]);
        {
            let raw = field::<false>(&b[0..3], 5, 17);
            assert!(s.get_raw_f17() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 47) as i64) >> 47;
            assert!(s.get_f17() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_1::new(&mut c[..]); m.set_f17(v); }
            assert!(updated::<false>(&b[0..3], &c[0..3], 5, 17, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_1::new(&mut c[..]); m.set_raw_f17(r); }
            assert!(updated::<false>(&b[0..3], &c[0..3], 5, 17, r as u64) && others(&b, &c, 0, 3), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 16 && v as i64 <= (1u64 << 16) as i64 - 1 || 17 == 64 {
                let mut c = b;
                { let mut m = S5_1::new(&mut c[..]); m.set_f17(v); }
                assert!(S5_1::new(&c[..]).get_f17() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[3..7], 5, 24);
            assert!(s.get_raw_f24() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 40) as i64) >> 40;
            assert!(s.get_f24() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_1::new(&mut c[..]); m.set_f24(v); }
            assert!(updated::<false>(&b[3..7], &c[3..7], 5, 24, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_1::new(&mut c[..]); m.set_raw_f24(r); }
            assert!(updated::<false>(&b[3..7], &c[3..7], 5, 24, r as u64) && others(&b, &c, 3, 7), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 23 && v as i64 <= (1u64 << 23) as i64 - 1 || 24 == 64 {
                let mut c = b;
                { let mut m = S5_1::new(&mut c[..]); m.set_f24(v); }
                assert!(S5_1::new(&c[..]).get_f24() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[6..10], 5, 25);
            assert!(s.get_raw_f25() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 39) as i64) >> 39;
            assert!(s.get_f25() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_1::new(&mut c[..]); m.set_f25(v); }
            assert!(updated::<false>(&b[6..10], &c[6..10], 5, 25, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_1::new(&mut c[..]); m.set_raw_f25(r); }
            assert!(updated::<false>(&b[6..10], &c[6..10], 5, 25, r as u64) && others(&b, &c, 6, 10), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 24 && v as i64 <= (1u64 << 24) as i64 - 1 || 25 == 64 {
                let mut c = b;
                { let mut m = S5_1::new(&mut c[..]); m.set_f25(v); }
                assert!(S5_1::new(&c[..]).get_f25() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[10..15], 5, 32);
            assert!(s.get_raw_f32() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 32) as i64) >> 32;
            assert!(s.get_f32() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_1::new(&mut c[..]); m.set_f32(v); }
            assert!(updated::<false>(&b[10..15], &c[10..15], 5, 32, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 15), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_1::new(&mut c[..]); m.set_raw_f32(r); }
            assert!(updated::<false>(&b[10..15], &c[10..15], 5, 32, r as u64) && others(&b, &c, 10, 15), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 31 && v as i64 <= (1u64 << 31) as i64 - 1 || 32 == 64 {
                let mut c = b;
                { let mut m = S5_1::new(&mut c[..]); m.set_f32(v); }
                assert!(S5_1::new(&c[..]).get_f32() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[14..19], 5, 33);
            assert!(s.get_raw_f33() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 31) as i64) >> 31;
            assert!(s.get_f33() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_1::new(&mut c[..]); m.set_f33(v); }
            assert!(updated::<false>(&b[14..19], &c[14..19], 5, 33, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 14, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_1::new(&mut c[..]); m.set_raw_f33(r); }
            assert!(updated::<false>(&b[14..19], &c[14..19], 5, 33, r as u64) && others(&b, &c, 14, 19), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 32 && v as i64 <= (1u64 << 32) as i64 - 1 || 33 == 64 {
                let mut c = b;
                { let mut m = S5_1::new(&mut c[..]); m.set_f33(v); }
                assert!(S5_1::new(&c[..]).get_f33() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o5_g2() {
        use crate::ileq::*;
        const N: usize = 37;
        assert!(<S5_2<()> as FixedSize>::SIZE == N && SIZE_S5_2 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S5_2::new(&b[..]);
        {
            let raw = field::<false>(&b[0..6], 5, 40);
            assert!(s.get_raw_f40() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 24) as i64) >> 24;
            assert!(s.get_f40() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_2::new(&mut c[..]); m.set_f40(v); }
            assert!(updated::<false>(&b[0..6], &c[0..6], 5, 40, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_2::new(&mut c[..]); m.set_raw_f40(r); }
            assert!(updated::<false>(&b[0..6], &c[0..6], 5, 40, r as u64) && others(&b, &c, 0, 6), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 39 && v as i64 <= (1u64 << 39) as i64 - 1 || 40 == 64 {
                let mut c = b;
                { let mut m = S5_2::new(&mut c[..]); m.set_f40(v); }
                assert!(S5_2::new(&c[..]).get_f40() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[5..13], 5, 56);
            assert!(s.get_raw_f56() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 8) as i64) >> 8;
            assert!(s.get_f56() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_2::new(&mut c[..]); m.set_f56(v); }
            assert!(updated::<false>(&b[5..13], &c[5..13], 5, 56, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_2::new(&mut c[..]); m.set_raw_f56(r); }
            assert!(updated::<false>(&b[5..13], &c[5..13], 5, 56, r as u64) && others(&b, &c, 5, 13), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 55 && v as i64 <= (1u64 << 55) as i64 - 1 || 56 == 64 {
                let mut c = b;
                { let mut m = S5_2::new(&mut c[..]); m.set_f56(v); }
                assert!(S5_2::new(&c[..]).get_f56() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[12..20], 5, 57);
            assert!(s.get_raw_f57() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 7) as i64) >> 7;
            assert!(s.get_f57() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_2::new(&mut c[..]); m.set_f57(v); }
            assert!(updated::<false>(&b[12..20], &c[12..20], 5, 57, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_2::new(&mut c[..]); m.set_raw_f57(r); }
            assert!(updated::<false>(&b[12..20], &c[12..20], 5, 57, r as u64) && others(&b, &c, 12, 20), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 56 && v as i64 <= (1u64 << 56) as i64 - 1 || 57 == 64 {
                let mut c = b;
                { let mut m = S5_2::new(&mut c[..]); m.set_f57(v); }
                assert!(S5_2::new(&c[..]).get_f57() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[20..29], 5, 63);
            assert!(s.get_raw_f63() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 1) as i64) >> 1;
            assert!(s.get_f63() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_2::new(&mut c[..]); m.set_f63(v); }
            assert!(updated::<false>(&b[20..29], &c[20..29], 5, 63, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_2::new(&mut c[..]); m.set_raw_f63(r); }
            assert!(updated::<false>(&b[20..29], &c[20..29], 5, 63, r as u64) && others(&b, &c, 20, 29), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 62 && v as i64 <= (1u64 << 62) as i64 - 1 || 63 == 64 {
                let mut c = b;
                { let mut m = S5_2::new(&mut c[..]); m.set_f63(v); }
                assert!(S5_2::new(&c[..]).get_f63() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[28..37], 5, 64);
            assert!(s.get_raw_f64() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 0) as i64) >> 0;
            assert!(s.get_f64() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_2::new(&mut c[..]); m.set_f64(v); }
            assert!(updated::<false>(&b[28..37], &c[28..37], 5, 64, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 28, 37), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_2::new(&mut c[..]); m.set_raw_f64(r); }
            assert!(updated::<false>(&b[28..37], &c[28..37], 5, 64, r as u64) && others(&b, &c, 28, 37), "the raw setter replaces the bits of the field only");
            {
                let mut c = b;
                { let mut m = S5_2::new(&mut c[..]); m.set_f64(v); }
                assert!(S5_2::new(&c[..]).get_f64() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o6_g0() {
        use crate::ileq::*;
        const N: usize = 9;
        assert!(<S6_0<()> as FixedSize>::SIZE == N && SIZE_S6_0 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S6_0::new(&b[..]);
        {
            let raw = field::<false>(&b[0..1], 6, 1);
            assert!(s.get_raw_f1() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 63) as i64) >> 63;
            assert!(s.get_f1() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_0::new(&mut c[..]); m.set_f1(v); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 6, 1, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_0::new(&mut c[..]); m.set_raw_f1(r); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 6, 1, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 0 && v as i64 <= (1u64 << 0) as i64 - 1 || 1 == 64 {
                let mut c = b;
                { let mut m = S6_0::new(&mut c[..]); m.set_f1(v); }
                assert!(S6_0::new(&c[..]).get_f1() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[1..3], 6, 3);
            assert!(s.get_raw_f3() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 61) as i64) >> 61;
            assert!(s.get_f3() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_0::new(&mut c[..]); m.set_f3(v); }
            assert!(updated::<false>(&b[1..3], &c[1..3], 6, 3, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_0::new(&mut c[..]); m.set_raw_f3(r); }
            assert!(updated::<false>(&b[1..3], &c[1..3], 6, 3, r as u64) && others(&b, &c, 1, 3), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 2 && v as i64 <= (1u64 << 2) as i64 - 1 || 3 == 64 {
                let mut c = b;
                { let mut m = S6_0::new(&mut c[..]); m.set_f3(v); }
                assert!(S6_0::new(&c[..]).get_f3() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[2..4], 6, 7);
            assert!(s.get_raw_f7() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 57) as i64) >> 57;
            assert!(s.get_f7() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_0::new(&mut c[..]); m.set_f7(v); }
            assert!(updated::<false>(&b[2..4], &c[2..4], 6, 7, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_0::new(&mut c[..]); m.set_raw_f7(r); }
            assert!(updated::<false>(&b[2..4], &c[2..4], 6, 7, r as u64) && others(&b, &c, 2, 4), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 6 && v as i64 <= (1u64 << 6) as i64 - 1 || 7 == 64 {
                let mut c = b;
                { let mut m = S6_0::new(&mut c[..]); m.set_f7(v); }
                assert!(S6_0::new(&c[..]).get_f7() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[3..5], 6, 8);
            assert!(s.get_raw_f8() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 56) as i64) >> 56;
            assert!(s.get_f8() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_0::new(&mut c[..]); m.set_f8(v); }
            assert!(updated::<false>(&b[3..5], &c[3..5], 6, 8, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_0::new(&mut c[..]); m.set_raw_f8(r); }
            assert!(updated::<false>(&b[3..5], &c[3..5], 6, 8, r as u64) && others(&b, &c, 3, 5), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 7 && v as i64 <= (1u64 << 7) as i64 - 1 || 8 == 64 {
                let mut c = b;
                { let mut m = S6_0::new(&mut c[..]); m.set_f8(v); }
                assert!(S6_0::new(&c[..]).get_f8() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[4..6], 6, 9);
            assert!(s.get_raw_f9() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 55) as i64) >> 55;
            assert!(s.get_f9() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_0::new(&mut c[..]); m.set_f9(v); }
            assert!(updated::<false>(&b[4..6], &c[4..6], 6, 9, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_0::new(&mut c[..]); m.set_raw_f9(r); }
            assert!(updated::<false>(&b[4..6], &c[4..6], 6, 9, r as u64) && others(&b, &c, 4, 6), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 8 && v as i64 <= (1u64 << 8) as i64 - 1 || 9 == 64 {
                let mut c = b;
                { let mut m = S6_0::new(&mut c[..]); m.set_f9(v); }
                assert!(S6_0::new(&c[..]).get_f9() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[6..9], 6, 16);
            assert!(s.get_raw_f16() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 48) as i64) >> 48;
            assert!(s.get_f16() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_0::new(&mut c[..]); m.set_f16(v); }
            assert!(updated::<false>(&b[6..9], &c[6..9], 6, 16, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 9), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_0::new(&mut c[..]); m.set_raw_f16(r); }
            assert!(updated::<false>(&b[6..9], &c[6..9], 6, 16, r as u64) && others(&b, &c, 6, 9), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 15 && v as i64 <= (1u64 << 15) as i64 - 1 || 16 == 64 {
                let mut c = b;
                { let mut m = S6_0::new(&mut c[..]); m.set_f16(v); }
                assert!(S6_0::new(&c[..]).get_f16() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o6_g1() {
        use crate::ileq::*;
        const N: usize = 19;
        assert!(<S6_1<()> as FixedSize>::SIZE == N && SIZE_S6_1 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S6_1::new(&b[..]);
        {
            let raw = field::<false>(&b[0..3], 6, 17);
            assert!(s.get_raw_f17() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 47) as i64) >> 47;
            assert!(s.get_f17() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_1::new(&mut c[..]); m.set_f17(v); }
            assert!(updated::<false>(&b[0..3], &c[0..3], 6, 17, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_1::new(&mut c[..]); m.set_raw_f17(r); }
            assert!(updated::<false>(&b[0..3], &c[0..3], 6, 17, r as u64) && others(&b, &c, 0, 3), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 16 && v as i64 <= (1u64 << 16) as i64 - 1 || 17 == 64 {
                let mut c = b;
                { let mut m = S6_1::new(&mut c[..]); m.set_f17(v); }
                assert!(S6_1::new(&c[..]).get_f17() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[3..7], 6, 24);
            assert!(s.get_raw_f24() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 40) as i64) >> 40;
            assert!(s.get_f24() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_1::new(&mut c[..]); m.set_f24(v); }
            assert!(updated::<false>(&b[3..7], &c[3..7], 6, 24, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_1::new(&mut c[..]); m.set_raw_f24(r); }
            assert!(updated::<false>(&b[3..7], &c[3..7], 6, 24, r as u64) && others(&b, &c, 3, 7), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 23 && v as i64 <= (1u64 << 23) as i64 - 1 || 24 == 64 {
                let mut c = b;
                { let mut m = S6_1::new(&mut c[..]); m.set_f24(v); }
                assert!(S6_1::new(&c[..]).get_f24() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[6..10], 6, 25);
            assert!(s.get_raw_f25() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 39) as i64) >> 39;
            assert!(s.get_f25() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_1::new(&mut c[..]); m.set_f25(v); }
            assert!(updated::<false>(&b[6..10], &c[6..10], 6, 25, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_1::new(&mut c[..]); m.set_raw_f25(r); }
            assert!(updated::<false>(&b[6..10], &c[6..10], 6, 25, r as u64) && others(&b, &c, 6, 10), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 24 && v as i64 <= (1u64 << 24) as i64 - 1 || 25 == 64 {
                let mut c = b;
                { let mut m = S6_1::new(&mut c[..]); m.set_f25(v); }
                assert!(S6_1::new(&c[..]).get_f25() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[10..15], 6, 32);
            assert!(s.get_raw_f32() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 32) as i64) >> 32;
            assert!(s.get_f32() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_1::new(&mut c[..]); m.set_f32(v); }
            assert!(updated::<false>(&b[10..15], &c[10..15], 6, 32, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 15), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_1::new(&mut c[..]); m.set_raw_f32(r); }
            assert!(updated::<false>(&b[10..15], &c[10..15], 6, 32, r as u64) && others(&b, &c, 10, 15), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 31 && v as i64 <= (1u64 << 31) as i64 - 1 || 32 == 64 {
                let mut c = b;
                { let mut m = S6_1::new(&mut c[..]); m.set_f32(v); }
                assert!(S6_1::new(&c[..]).get_f32() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[14..19], 6, 33);
            assert!(s.get_raw_f33() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 31) as i64) >> 31;
            assert!(s.get_f33() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_1::new(&mut c[..]); m.set_f33(v); }
            assert!(updated::<false>(&b[14..19], &c[14..19], 6, 33, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 14, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_1::new(&mut c[..]); m.set_raw_f33(r); }
            assert!(updated::<false>(&b[14..19], &c[14..19], 6, 33, r as u64) && others(&b, &c, 14, 19), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 32 && v as i64 <= (1u64 << 32) as i64 - 1 || 33 == 64 {
                let mut c = b;
                { let mut m = S6_1::new(&mut c[..]); m.set_f33(v); }
                assert!(S6_1::new(&c[..]).get_f33() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o6_g2() {
        use crate::ileq::*;
        const N: usize = 37;
        assert!(<S6_2<()> as FixedSize>::SIZE == N && SIZE_S6_2 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S6_2::new(&b[..]);
        {
            let raw = field::<false>(&b[0..6], 6, 40);
            assert!(s.get_raw_f40() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 24) as i64) >> 24;
            assert!(s.get_f40() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_2::new(&mut c[..]); m.set_f40(v); }
            assert!(updated::<false>(&b[0..6], &c[0..6], 6, 40, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_2::new(&mut c[..]); m.set_raw_f40(r); }
            assert!(updated::<false>(&b[0..6], &c[0..6], 6, 40, r as u64) && others(&b, &c, 0, 6), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 39 && v as i64 <= (1u64 << 39) as i64 - 1 || 40 == 64 {
                let mut c = b;
                { let mut m = S6_2::new(&mut c[..]); m.set_f40(v); }
                assert!(S6_2::new(&c[..]).get_f40() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[5..13], 6, 56);
            assert!(s.get_raw_f56() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 8) as i64) >> 8;
            assert!(s.get_f56() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_2::new(&mut c[..]); m.set_f56(v); }
            assert!(updated::<false>(&b[5..13], &c[5..13], 6, 56, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_2::new(&mut c[..]); m.set_raw_f56(r); }
            assert!(updated::<false>(&b[5..13], &c[5..13], 6, 56, r as u64) && others(&b, &c, 5, 13), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 55 && v as i64 <= (1u64 << 55) as i64 - 1 || 56 == 64 {
                let mut c = b;
                { let mut m = S6_2::new(&mut c[..]); m.set_f56(v); }
                assert!(S6_2::new(&c[..]).get_f56() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[12..20], 6, 57);
            assert!(s.get_raw_f57() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 7) as i64) >> 7;
            assert!(s.get_f57() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_2::new(&mut c[..]); m.set_f57(v); }
            assert!(updated::<false>(&b[12..20], &c[12..20], 6, 57, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_2::new(&mut c[..]); m.set_raw_f57(r); }
            assert!(updated::<false>(&b[12..20], &c[12..20], 6, 57, r as u64) && others(&b, &c, 12, 20), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 56 && v as i64 <= (1u64 << 56) as i64 - 1 || 57 == 64 {
                let mut c = b;
                { let mut m = S6_2::new(&mut c[..]); m.set_f57(v); }
                assert!(S6_2::new(&c[..]).get_f57() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[20..29], 6, 63);
            assert!(s.get_raw_f63() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 1) as i64) >> 1;
            assert!(s.get_f63() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_2::new(&mut c[..]); m.set_f63(v); }
            assert!(updated::<false>(&b[20..29], &c[20..29], 6, 63, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_2::new(&mut c[..]); m.set_raw_f63(r); }
            assert!(updated::<false>(&b[20..29], &c[20..29], 6, 63, r as u64) && others(&b, &c, 20, 29), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 62 && v as i64 <= (1u64 << 62) as i64 - 1 || 63 == 64 {
                let mut c = b;
                { let mut m = S6_2::new(&mut c[..]); m.set_f63(v); }
                assert!(S6_2::new(&c[..]).get_f63() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[28..37], 6, 64);
            assert!(s.get_raw_f64() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 0) as i64) >> 0;
            assert!(s.get_f64() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_2::new(&mut c[..]); m.set_f64(v); }
            assert!(updated::<false>(&b[28..37], &c[28..37], 6, 64, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 28, 37), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_2::new(&mut c[..]); m.set_raw_f64(r); }
            assert!(updated::<false>(&b[28..37], &c[28..37], 6, 64, r as u64) && others(&b, &c, 28, 37), "the raw setter replaces the bits of the field only");
            {
                let mut c = b;
                { let mut m = S6_2::new(&mut c[..]); m.set_f64(v); }
                assert!(S6_2::new(&c[..]).get_f64() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o7_g0() {
        use crate::ileq::*;
        const N: usize = 9;
        assert!(<S7_0<()> as FixedSize>::SIZE == N && SIZE_S7_0 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S7_0::new(&b[..]);
        {
            let raw = field::<false>(&b[0..1], 7, 1);
            assert!(s.get_raw_f1() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 63) as i64) >> 63;
            assert!(s.get_f1() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_0::new(&mut c[..]); m.set_f1(v); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 7, 1, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_0::new(&mut c[..]); m.set_raw_f1(r); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 7, 1, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 0 && v as i64 <= (1u64 << 0) as i64 - 1 || 1 == 64 {
                let mut c = b;
                { let mut m = S7_0::new(&mut c[..]); m.set_f1(v); }
                assert!(S7_0::new(&c[..]).get_f1() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[1..3], 7, 3);
            assert!(s.get_raw_f3() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 61) as i64) >> 61;
            assert!(s.get_f3() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_0::new(&mut c[..]); m.set_f3(v); }
            assert!(updated::<false>(&b[1..3], &c[1..3], 7, 3, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_0::new(&mut c[..]); m.set_raw_f3(r); }
            assert!(updated::<false>(&b[1..3], &c[1..3], 7, 3, r as u64) && others(&b, &c, 1, 3), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 2 && v as i64 <= (1u64 << 2) as i64 - 1 || 3 == 64 {
                let mut c = b;
                { let mut m = S7_0::new(&mut c[..]); m.set_f3(v); }
                assert!(S7_0::new(&c[..]).get_f3() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[2..4], 7, 7);
            assert!(s.get_raw_f7() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 57) as i64) >> 57;
            assert!(s.get_f7() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_0::new(&mut c[..]); m.set_f7(v); }
            assert!(updated::<false>(&b[2..4], &c[2..4], 7, 7, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_0::new(&mut c[..]); m.set_raw_f7(r); }
            assert!(updated::<false>(&b[2..4], &c[2..4], 7, 7, r as u64) && others(&b, &c, 2, 4), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 6 && v as i64 <= (1u64 << 6) as i64 - 1 || 7 == 64 {
                let mut c = b;
                { let mut m = S7_0::new(&mut c[..]); m.set_f7(v); }
                assert!(S7_0::new(&c[..]).get_f7() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[3..5], 7, 8);
            assert!(s.get_raw_f8() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 56) as i64) >> 56;
            assert!(s.get_f8() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_0::new(&mut c[..]); m.set_f8(v); }
            assert!(updated::<false>(&b[3..5], &c[3..5], 7, 8, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_0::new(&mut c[..]); m.set_raw_f8(r); }
            assert!(updated::<false>(&b[3..5], &c[3..5], 7, 8, r as u64) && others(&b, &c, 3, 5), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 7 && v as i64 <= (1u64 << 7) as i64 - 1 || 8 == 64 {
                let mut c = b;
                { let mut m = S7_0::new(&mut c[..]); m.set_f8(v); }
                assert!(S7_0::new(&c[..]).get_f8() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[4..6], 7, 9);
            assert!(s.get_raw_f9() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 55) as i64) >> 55;
            assert!(s.get_f9() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_0::new(&mut c[..]); m.set_f9(v); }
            assert!(updated::<false>(&b[4..6], &c[4..6], 7, 9, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_0::new(&mut c[..]); m.set_raw_f9(r); }
            assert!(updated::<false>(&b[4..6], &c[4..6], 7, 9, r as u64) && others(&b, &c, 4, 6), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 8 && v as i64 <= (1u64 << 8) as i64 - 1 || 9 == 64 {
                let mut c = b;
                { let mut m = S7_0::new(&mut c[..]); m.set_f9(v); }
                assert!(S7_0::new(&c[..]).get_f9() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[6..9], 7, 16);
            assert!(s.get_raw_f16() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 48) as i64) >> 48;
            assert!(s.get_f16() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_0::new(&mut c[..]); m.set_f16(v); }
            assert!(updated::<false>(&b[6..9], &c[6..9], 7, 16, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 9), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_0::new(&mut c[..]); m.set_raw_f16(r); }
            assert!(updated::<false>(&b[6..9], &c[6..9], 7, 16, r as u64) && others(&b, &c, 6, 9), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 15 && v as i64 <= (1u64 << 15) as i64 - 1 || 16 == 64 {
                let mut c = b;
                { let mut m = S7_0::new(&mut c[..]); m.set_f16(v); }
                assert!(S7_0::new(&c[..]).get_f16() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o7_g1() {
        use crate::ileq::*;
        const N: usize = 19;
        assert!(<S7_1<()> as FixedSize>::SIZE == N && SIZE_S7_1 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S7_1::new(&b[..]);
        {
            let raw = field::<false>(&b[0..3], 7, 17);
            assert!(s.get_raw_f17() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 47) as i64) >> 47;
            assert!(s.get_f17() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_1::new(&mut c[..]); m.set_f17(v); }
            assert!(updated::<false>(&b[0..3], &c[0..3], 7, 17, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_1::new(&mut c[..]); m.set_raw_f17(r); }
            assert!(updated::<false>(&b[0..3], &c[0..3], 7, 17, r as u64) && others(&b, &c, 0, 3), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 16 && v as i64 <= (1u64 << 16) as i64 - 1 || 17 == 64 {
                let mut c = b;
                { let mut m = S7_1::new(&mut c[..]); m.set_f17(v); }
                assert!(S7_1::new(&c[..]).get_f17() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[3..7], 7, 24);
            assert!(s.get_raw_f24() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 40) as i64) >> 40;
            assert!(s.get_f24() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_1::new(&mut c[..]); m.set_f24(v); }
            assert!(updated::<false>(&b[3..7], &c[3..7], 7, 24, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_1::new(&mut c[..]); m.set_raw_f24(r); }
            assert!(updated::<false>(&b[3..7], &c[3..7], 7, 24, r as u64) && others(&b, &c, 3, 7), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 23 && v as i64 <= (1u64 << 23) as i64 - 1 || 24 == 64 {
                let mut c = b;
                { let mut m = S7_1::new(&mut c[..]); m.set_f24(v); }
                assert!(S7_1::new(&c[..]).get_f24() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[6..10], 7, 25);
            assert!(s.get_raw_f25() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 39) as i64) >> 39;
            assert!(s.get_f25() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_1::new(&mut c[..]); m.set_f25(v); }
            assert!(updated::<false>(&b[6..10], &c[6..10], 7, 25, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_1::new(&mut c[..]); m.set_raw_f25(r); }
            assert!(updated::<false>(&b[6..10], &c[6..10], 7, 25, r as u64) && others(&b, &c, 6, 10), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 24 && v as i64 <= (1u64 << 24) as i64 - 1 || 25 == 64 {
                let mut c = b;
                { let mut m = S7_1::new(&mut c[..]); m.set_f25(v); }
                assert!(S7_1::new(&c[..]).get_f25() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[10..15], 7, 32);
            assert!(s.get_raw_f32() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 32) as i64) >> 32;
            assert!(s.get_f32() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_1::new(&mut c[..]); m.set_f32(v); }
            assert!(updated::<false>(&b[10..15], &c[10..15], 7, 32, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 15), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_1::new(&mut c[..]); m.set_raw_f32(r); }
            assert!(updated::<false>(&b[10..15], &c[10..15], 7, 32, r as u64) && others(&b, &c, 10, 15), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 31 && v as i64 <= (1u64 << 31) as i64 - 1 || 32 == 64 {
                let mut c = b;
                { let mut m = S7_1::new(&mut c[..]); m.set_f32(v); }
                assert!(S7_1::new(&c[..]).get_f32() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[14..19], 7, 33);
            assert!(s.get_raw_f33() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 31) as i64) >> 31;
            assert!(s.get_f33() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_1::new(&mut c[..]); m.set_f33(v); }
            assert!(updated::<false>(&b[14..19], &c[14..19], 7, 33, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 14, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_1::new(&mut c[..]); m.set_raw_f33(r); }
            assert!(updated::<false>(&b[14..19], &c[14..19], 7, 33, r as u64) && others(&b, &c, 14, 19), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 32 && v as i64 <= (1u64 << 32) as i64 - 1 || 33 == 64 {
                let mut c = b;
                { let mut m = S7_1::new(&mut c[..]); m.set_f33(v); }
                assert!(S7_1::new(&c[..]).get_f33() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o7_g2() {
        use crate::ileq::*;
        const N: usize = 37;
        assert!(<S7_2<()> as FixedSize>::SIZE == N && SIZE_S7_2 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S7_2::new(&b[..]);
        {
            let raw = field::<false>(&b[0..6], 7, 40);
            assert!(s.get_raw_f40() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 24) as i64) >> 24;
            assert!(s.get_f40() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_2::new(&mut c[..]); m.set_f40(v); }
            assert!(updated::<false>(&b[0..6], &c[0..6], 7, 40, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_2::new(&mut c[..]); m.set_raw_f40(r); }
            assert!(updated::<false>(&b[0..6], &c[0..6], 7, 40, r as u64) && others(&b, &c, 0, 6), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 39 && v as i64 <= (1u64 << 39) as i64 - 1 || 40 == 64 {
                let mut c = b;
                { let mut m = S7_2::new(&mut c[..]); m.set_f40(v); }
                assert!(S7_2::new(&c[..]).get_f40() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[5..13], 7, 56);
            assert!(s.get_raw_f56() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 8) as i64) >> 8;
            assert!(s.get_f56() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_2::new(&mut c[..]); m.set_f56(v); }
            assert!(updated::<false>(&b[5..13], &c[5..13], 7, 56, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_2::new(&mut c[..]); m.set_raw_f56(r); }
            assert!(updated::<false>(&b[5..13], &c[5..13], 7, 56, r as u64) && others(&b, &c, 5, 13), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 55 && v as i64 <= (1u64 << 55) as i64 - 1 || 56 == 64 {
                let mut c = b;
                { let mut m = S7_2::new(&mut c[..]); m.set_f56(v); }
                assert!(S7_2::new(&c[..]).get_f56() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[12..20], 7, 57);
            assert!(s.get_raw_f57() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 7) as i64) >> 7;
            assert!(s.get_f57() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_2::new(&mut c[..]); m.set_f57(v); }
            assert!(updated::<false>(&b[12..20], &c[12..20], 7, 57, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_2::new(&mut c[..]); m.set_raw_f57(r); }
            assert!(updated::<false>(&b[12..20], &c[12..20], 7, 57, r as u64) && others(&b, &c, 12, 20), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 56 && v as i64 <= (1u64 << 56) as i64 - 1 || 57 == 64 {
                let mut c = b;
                { let mut m = S7_2::new(&mut c[..]); m.set_f57(v); }
                assert!(S7_2::new(&c[..]).get_f57() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[20..29], 7, 63);
            assert!(s.get_raw_f63() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 1) as i64) >> 1;
            assert!(s.get_f63() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_2::new(&mut c[..]); m.set_f63(v); }
            assert!(updated::<false>(&b[20..29], &c[20..29], 7, 63, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_2::new(&mut c[..]); m.set_raw_f63(r); }
            assert!(updated::<false>(&b[20..29], &c[20..29], 7, 63, r as u64) && others(&b, &c, 20, 29), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 62 && v as i64 <= (1u64 << 62) as i64 - 1 || 63 == 64 {
                let mut c = b;
                { let mut m = S7_2::new(&mut c[..]); m.set_f63(v); }
                assert!(S7_2::new(&c[..]).get_f63() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[28..37], 7, 64);
            assert!(s.get_raw_f64() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 0) as i64) >> 0;
            assert!(s.get_f64() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_2::new(&mut c[..]); m.set_f64(v); }
            assert!(updated::<false>(&b[28..37], &c[28..37], 7, 64, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 28, 37), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_2::new(&mut c[..]); m.set_raw_f64(r); }
            assert!(updated::<false>(&b[28..37], &c[28..37], 7, 64, r as u64) && others(&b, &c, 28, 37), "the raw setter replaces the bits of the field only");
            {
                let mut c = b;
                { let mut m = S7_2::new(&mut c[..]); m.set_f64(v); }
                assert!(S7_2::new(&c[..]).get_f64() == v, "a value in the range of the field is given back");
            }
        }
    }
}
#[cfg(feature = "ibeq")]
mod ibeq {
    use crate::spec::*;
    use bp3d_proto::util::FixedSize;
    #[kani::proof]
    fn o0_g0() {
        use crate::ibeq::*;
        const N: usize = 8;
        assert!(<S0_0<()> as FixedSize>::SIZE == N && SIZE_S0_0 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S0_0::new(&b[..]);
        {
            let raw = field::<true>(&b[0..1], 0, 1);
            assert!(s.get_raw_f1() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 63) as i64) >> 63;
            assert!(s.get_f1() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_0::new(&mut c[..]); m.set_f1(v); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 0, 1, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_0::new(&mut c[..]); m.set_raw_f1(r); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 0, 1, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 0 && v as i64 <= (1u64 << 0) as i64 - 1 || 1 == 64 {
                let mut c = b;
                { let mut m = S0_0::new(&mut c[..]); m.set_f1(v); }
                assert!(S0_0::new(&c[..]).get_f1() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[1..2], 0, 3);
            assert!(s.get_raw_f3() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 61) as i64) >> 61;
            assert!(s.get_f3() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_0::new(&mut c[..]); m.set_f3(v); }
            assert!(updated::<true>(&b[1..2], &c[1..2], 0, 3, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_0::new(&mut c[..]); m.set_raw_f3(r); }
            assert!(updated::<true>(&b[1..2], &c[1..2], 0, 3, r as u64) && others(&b, &c, 1, 2), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 2 && v as i64 <= (1u64 << 2) as i64 - 1 || 3 == 64 {
                let mut c = b;
                { let mut m = S0_0::new(&mut c[..]); m.set_f3(v); }
                assert!(S0_0::new(&c[..]).get_f3() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[2..3], 0, 7);
            assert!(s.get_raw_f7() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 57) as i64) >> 57;
            assert!(s.get_f7() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_0::new(&mut c[..]); m.set_f7(v); }
            assert!(updated::<true>(&b[2..3], &c[2..3], 0, 7, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_0::new(&mut c[..]); m.set_raw_f7(r); }
            assert!(updated::<true>(&b[2..3], &c[2..3], 0, 7, r as u64) && others(&b, &c, 2, 3), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 6 && v as i64 <= (1u64 << 6) as i64 - 1 || 7 == 64 {
                let mut c = b;
                { let mut m = S0_0::new(&mut c[..]); m.set_f7(v); }
                assert!(S0_0::new(&c[..]).get_f7() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[3..4], 0, 8);
            assert!(s.get_raw_f8() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 56) as i64) >> 56;
            assert!(s.get_f8() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_0::new(&mut c[..]); m.set_f8(v); }
            assert!(updated::<true>(&b[3..4], &c[3..4], 0, 8, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_0::new(&mut c[..]); m.set_raw_f8(r); }
            assert!(updated::<true>(&b[3..4], &c[3..4], 0, 8, r as u64) && others(&b, &c, 3, 4), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 7 && v as i64 <= (1u64 << 7) as i64 - 1 || 8 == 64 {
                let mut c = b;
                { let mut m = S0_0::new(&mut c[..]); m.set_f8(v); }
                assert!(S0_0::new(&c[..]).get_f8() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[4..6], 0, 9);
            assert!(s.get_raw_f9() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 55) as i64) >> 55;
            assert!(s.get_f9() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_0::new(&mut c[..]); m.set_f9(v); }
            assert!(updated::<true>(&b[4..6], &c[4..6], 0, 9, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_0::new(&mut c[..]); m.set_raw_f9(r); }
            assert!(updated::<true>(&b[4..6], &c[4..6], 0, 9, r as u64) && others(&b, &c, 4, 6), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 8 && v as i64 <= (1u64 << 8) as i64 - 1 || 9 == 64 {
                let mut c = b;
                { let mut m = S0_0::new(&mut c[..]); m.set_f9(v); }
                assert!(S0_0::new(&c[..]).get_f9() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[6..8], 0, 16);
            assert!(s.get_raw_f16() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 48) as i64) >> 48;
            assert!(s.get_f16() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_0::new(&mut c[..]); m.set_f16(v); }
            assert!(updated::<true>(&b[6..8], &c[6..8], 0, 16, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_0::new(&mut c[..]); m.set_raw_f16(r); }
            assert!(updated::<true>(&b[6..8], &c[6..8], 0, 16, r as u64) && others(&b, &c, 6, 8), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 15 && v as i64 <= (1u64 << 15) as i64 - 1 || 16 == 64 {
                let mut c = b;
                { let mut m = S0_0::new(&mut c[..]); m.set_f16(v); }
                assert!(S0_0::new(&c[..]).get_f16() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o0_g1() {
        use crate::ibeq::*;
        const N: usize = 19;
        assert!(<S0_1<()> as FixedSize>::SIZE == N && SIZE_S0_1 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S0_1::new(&b[..]);
        {
            let raw = field::<true>(&b[0..3], 0, 17);
            assert!(s.get_raw_f17() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 47) as i64) >> 47;
            assert!(s.get_f17() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_1::new(&mut c[..]); m.set_f17(v); }
            assert!(updated::<true>(&b[0..3], &c[0..3], 0, 17, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_1::new(&mut c[..]); m.set_raw_f17(r); }
            assert!(updated::<true>(&b[0..3], &c[0..3], 0, 17, r as u64) && others(&b, &c, 0, 3), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 16 && v as i64 <= (1u64 << 16) as i64 - 1 || 17 == 64 {
                let mut c = b;
                { let mut m = S0_1::new(&mut c[..]); m.set_f17(v); }
                assert!(S0_1::new(&c[..]).get_f17() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[3..6], 0, 24);
            assert!(s.get_raw_f24() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 40) as i64) >> 40;
            assert!(s.get_f24() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_1::new(&mut c[..]); m.set_f24(v); }
            assert!(updated::<true>(&b[3..6], &c[3..6], 0, 24, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_1::new(&mut c[..]); m.set_raw_f24(r); }
            assert!(updated::<true>(&b[3..6], &c[3..6], 0, 24, r as u64) && others(&b, &c, 3, 6), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 23 && v as i64 <= (1u64 << 23) as i64 - 1 || 24 == 64 {
                let mut c = b;
                { let mut m = S0_1::new(&mut c[..]); m.set_f24(v); }
                assert!(S0_1::new(&c[..]).get_f24() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[6..10], 0, 25);
            assert!(s.get_raw_f25() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 39) as i64) >> 39;
            assert!(s.get_f25() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_1::new(&mut c[..]); m.set_f25(v); }
            assert!(updated::<true>(&b[6..10], &c[6..10], 0, 25, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_1::new(&mut c[..]); m.set_raw_f25(r); }
            assert!(updated::<true>(&b[6..10], &c[6..10], 0, 25, r as u64) && others(&b, &c, 6, 10), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 24 && v as i64 <= (1u64 << 24) as i64 - 1 || 25 == 64 {
                let mut c = b;
                { let mut m = S0_1::new(&mut c[..]); m.set_f25(v); }
                assert!(S0_1::new(&c[..]).get_f25() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[10..14], 0, 32);
            assert!(s.get_raw_f32() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 32) as i64) >> 32;
            assert!(s.get_f32() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_1::new(&mut c[..]); m.set_f32(v); }
            assert!(updated::<true>(&b[10..14], &c[10..14], 0, 32, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 14), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_1::new(&mut c[..]); m.set_raw_f32(r); }
            assert!(updated::<true>(&b[10..14], &c[10..14], 0, 32, r as u64) && others(&b, &c, 10, 14), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 31 && v as i64 <= (1u64 << 31) as i64 - 1 || 32 == 64 {
                let mut c = b;
                { let mut m = S0_1::new(&mut c[..]); m.set_f32(v); }
                assert!(S0_1::new(&c[..]).get_f32() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[14..19], 0, 33);
            assert!(s.get_raw_f33() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 31) as i64) >> 31;
            assert!(s.get_f33() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_1::new(&mut c[..]); m.set_f33(v); }
            assert!(updated::<true>(&b[14..19], &c[14..19], 0, 33, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 14, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_1::new(&mut c[..]); m.set_raw_f33(r); }
            assert!(updated::<true>(&b[14..19], &c[14..19], 0, 33, r as u64) && others(&b, &c, 14, 19), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 32 && v as i64 <= (1u64 << 32) as i64 - 1 || 33 == 64 {
                let mut c = b;
                { let mut m = S0_1::new(&mut c[..]); m.set_f33(v); }
                assert!(S0_1::new(&c[..]).get_f33() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o0_g2() {
        use crate::ibeq::*;
        const N: usize = 36;
        assert!(<S0_2<()> as FixedSize>::SIZE == N && SIZE_S0_2 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S0_2::new(&b[..]);
        {
            let raw = field::<true>(&b[0..5], 0, 40);
            assert!(s.get_raw_f40() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 24) as i64) >> 24;
            assert!(s.get_f40() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_2::new(&mut c[..]); m.set_f40(v); }
            assert!(updated::<true>(&b[0..5], &c[0..5], 0, 40, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_2::new(&mut c[..]); m.set_raw_f40(r); }
            assert!(updated::<true>(&b[0..5], &c[0..5], 0, 40, r as u64) && others(&b, &c, 0, 5), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 39 && v as i64 <= (1u64 << 39) as i64 - 1 || 40 == 64 {
                let mut c = b;
                { let mut m = S0_2::new(&mut c[..]); m.set_f40(v); }
                assert!(S0_2::new(&c[..]).get_f40() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[5..12], 0, 56);
            assert!(s.get_raw_f56() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 8) as i64) >> 8;
            assert!(s.get_f56() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_2::new(&mut c[..]); m.set_f56(v); }
            assert!(updated::<true>(&b[5..12], &c[5..12], 0, 56, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 12), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_2::new(&mut c[..]); m.set_raw_f56(r); }
            assert!(updated::<true>(&b[5..12], &c[5..12], 0, 56, r as u64) && others(&b, &c, 5, 12), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 55 && v as i64 <= (1u64 << 55) as i64 - 1 || 56 == 64 {
                let mut c = b;
                { let mut m = S0_2::new(&mut c[..]); m.set_f56(v); }
                assert!(S0_2::new(&c[..]).get_f56() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[12..20], 0, 57);
            assert!(s.get_raw_f57() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 7) as i64) >> 7;
            assert!(s.get_f57() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_2::new(&mut c[..]); m.set_f57(v); }
            assert!(updated::<true>(&b[12..20], &c[12..20], 0, 57, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_2::new(&mut c[..]); m.set_raw_f57(r); }
            assert!(updated::<true>(&b[12..20], &c[12..20], 0, 57, r as u64) && others(&b, &c, 12, 20), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 56 && v as i64 <= (1u64 << 56) as i64 - 1 || 57 == 64 {
                let mut c = b;
                { let mut m = S0_2::new(&mut c[..]); m.set_f57(v); }
                assert!(S0_2::new(&c[..]).get_f57() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[20..28], 0, 63);
            assert!(s.get_raw_f63() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 1) as i64) >> 1;
            assert!(s.get_f63() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_2::new(&mut c[..]); m.set_f63(v); }
            assert!(updated::<true>(&b[20..28], &c[20..28], 0, 63, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 28), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_2::new(&mut c[..]); m.set_raw_f63(r); }
            assert!(updated::<true>(&b[20..28], &c[20..28], 0, 63, r as u64) && others(&b, &c, 20, 28), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 62 && v as i64 <= (1u64 << 62) as i64 - 1 || 63 == 64 {
                let mut c = b;
                { let mut m = S0_2::new(&mut c[..]); m.set_f63(v); }
                assert!(S0_2::new(&c[..]).get_f63() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[28..36], 0, 64);
            assert!(s.get_raw_f64() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 0) as i64) >> 0;
            assert!(s.get_f64() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_2::new(&mut c[..]); m.set_f64(v); }
            assert!(updated::<true>(&b[28..36], &c[28..36], 0, 64, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 28, 36), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_2::new(&mut c[..]); m.set_raw_f64(r); }
            assert!(updated::<true>(&b[28..36], &c[28..36], 0, 64, r as u64) && others(&b, &c, 28, 36), "the raw setter replaces the bits of the field only");
            {
                let mut c = b;
                { let mut m = S0_2::new(&mut c[..]); m.set_f64(v); }
                assert!(S0_2::new(&c[..]).get_f64() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o1_g0() {
        use crate::ibeq::*;
        const N: usize = 9;
        assert!(<S1_0<()> as FixedSize>::SIZE == N && SIZE_S1_0 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S1_0::new(&b[..]);
        {
            let raw = field::<true>(&b[0..1], 1, 1);
            assert!(s.get_raw_f1() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 63) as i64) >> 63;
            assert!(s.get_f1() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_0::new(&mut c[..]); m.set_f1(v); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 1, 1, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_0::new(&mut c[..]); m.set_raw_f1(r); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 1, 1, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 0 && v as i64 <= (1u64 << 0) as i64 - 1 || 1 == 64 {
                let mut c = b;
                { let mut m = S1_0::new(&mut c[..]); m.set_f1(v); }
                assert!(S1_0::new(&c[..]).get_f1() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[1..2], 1, 3);
            assert!(s.get_raw_f3() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 61) as i64) >> 61;
            assert!(s.get_f3() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_0::new(&mut c[..]); m.set_f3(v); }
            assert!(updated::<true>(&b[1..2], &c[1..2], 1, 3, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_0::new(&mut c[..]); m.set_raw_f3(r); }
            assert!(updated::<true>(&b[1..2], &c[1..2], 1, 3, r as u64) && others(&b, &c, 1, 2), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 2 && v as i64 <= (1u64 << 2) as i64 - 1 || 3 == 64 {
                let mut c = b;
                { let mut m = S1_0::new(&mut c[..]); m.set_f3(v); }
                assert!(S1_0::new(&c[..]).get_f3() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[2..3], 1, 7);
            assert!(s.get_raw_f7() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 57) as i64) >> 57;
            assert!(s.get_f7() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_0::new(&mut c[..]); m.set_f7(v); }
            assert!(updated::<true>(&b[2..3], &c[2..3], 1, 7, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_0::new(&mut c[..]); m.set_raw_f7(r); }
            assert!(updated::<true>(&b[2..3], &c[2..3], 1, 7, r as u64) && others(&b, &c, 2, 3), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 6 && v as i64 <= (1u64 << 6) as i64 - 1 || 7 == 64 {
                let mut c = b;
                { let mut m = S1_0::new(&mut c[..]); m.set_f7(v); }
                assert!(S1_0::new(&c[..]).get_f7() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[3..5], 1, 8);
            assert!(s.get_raw_f8() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 56) as i64) >> 56;
            assert!(s.get_f8() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_0::new(&mut c[..]); m.set_f8(v); }
            assert!(updated::<true>(&b[3..5], &c[3..5], 1, 8, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_0::new(&mut c[..]); m.set_raw_f8(r); }
            assert!(updated::<true>(&b[3..5], &c[3..5], 1, 8, r as u64) && others(&b, &c, 3, 5), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 7 && v as i64 <= (1u64 << 7) as i64 - 1 || 8 == 64 {
                let mut c = b;
                { let mut m = S1_0::new(&mut c[..]); m.set_f8(v); }
                assert!(S1_0::new(&c[..]).get_f8() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[4..6], 1, 9);
            assert!(s.get_raw_f9() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 55) as i64) >> 55;
            assert!(s.get_f9() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_0::new(&mut c[..]); m.set_f9(v); }
            assert!(updated::<true>(&b[4..6], &c[4..6], 1, 9, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_0::new(&mut c[..]); m.set_raw_f9(r); }
            assert!(updated::<true>(&b[4..6], &c[4..6], 1, 9, r as u64) && others(&b, &c, 4, 6), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 8 && v as i64 <= (1u64 << 8) as i64 - 1 || 9 == 64 {
                let mut c = b;
                { let mut m = S1_0::new(&mut c[..]); m.set_f9(v); }
                assert!(S1_0::new(&c[..]).get_f9() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[6..9], 1, 16);
            assert!(s.get_raw_f16() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 48) as i64) >> 48;
            assert!(s.get_f16() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_0::new(&mut c[..]); m.set_f16(v); }
            assert!(updated::<true>(&b[6..9], &c[6..9], 1, 16, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 9), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_0::new(&mut c[..]); m.set_raw_f16(r); }
            assert!(updated::<true>(&b[6..9], &c[6..9], 1, 16, r as u64) && others(&b, &c, 6, 9), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 15 && v as i64 <= (1u64 << 15) as i64 - 1 || 16 == 64 {
                let mut c = b;
                { let mut m = S1_0::new(&mut c[..]); m.set_f16(v); }
                assert!(S1_0::new(&c[..]).get_f16() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o1_g1() {
        use crate::ibeq::*;
        const N: usize = 19;
        assert!(<S1_1<()> as FixedSize>::SIZE == N && SIZE_S1_1 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S1_1::new(&b[..]);
        {
            let raw = field::<true>(&b[0..3], 1, 17);
            assert!(s.get_raw_f17() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 47) as i64) >> 47;
            assert!(s.get_f17() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_1::new(&mut c[..]); m.set_f17(v); }
            assert!(updated::<true>(&b[0..3], &c[0..3], 1, 17, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_1::new(&mut c[..]); m.set_raw_f17(r); }
            assert!(updated::<true>(&b[0..3], &c[0..3], 1, 17, r as u64) && others(&b, &c, 0, 3), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 16 && v as i64 <= (1u64 << 16) as i64 - 1 || 17 == 64 {
                let mut c = b;
                { let mut m = S1_1::new(&mut c[..]); m.set_f17(v); }
                assert!(S1_1::new(&c[..]).get_f17() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[3..7], 1, 24);
            assert!(s.get_raw_f24() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 40) as i64) >> 40;
            assert!(s.get_f24() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_1::new(&mut c[..]); m.set_f24(v); }
            assert!(updated::<true>(&b[3..7], &c[3..7], 1, 24, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_1::new(&mut c[..]); m.set_raw_f24(r); }
            assert!(updated::<true>(&b[3..7], &c[3..7], 1, 24, r as u64) && others(&b, &c, 3, 7), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 23 && v as i64 <= (1u64 << 23) as i64 - 1 || 24 == 64 {
                let mut c = b;
                { let mut m = S1_1::new(&mut c[..]); m.set_f24(v); }
                assert!(S1_1::new(&c[..]).get_f24() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[6..10], 1, 25);
            assert!(s.get_raw_f25() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 39) as i64) >> 39;
            assert!(s.get_f25() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_1::new(&mut c[..]); m.set_f25(v); }
            assert!(updated::<true>(&b[6..10], &c[6..10], 1, 25, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_1::new(&mut c[..]); m.set_raw_f25(r); }
            assert!(updated::<true>(&b[6..10], &c[6..10], 1, 25, r as u64) && others(&b, &c, 6, 10), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 24 && v as i64 <= (1u64 << 24) as i64 - 1 || 25 == 64 {
                let mut c = b;
                { let mut m = S1_1::new(&mut c[..]); m.set_f25(v); }
                assert!(S1_1::new(&c[..]).get_f25() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[10..15], 1, 32);
            assert!(s.get_raw_f32() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 32) as i64) >> 32;
            assert!(s.get_f32() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_1::new(&mut c[..]); m.set_f32(v); }
            assert!(updated::<true>(&b[10..15], &c[10..15], 1, 32, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 15), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_1::new(&mut c[..]); m.set_raw_f32(r); }
            assert!(updated::<true>(&b[10..15], &c[10..15], 1, 32, r as u64) && others(&b, &c, 10, 15), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 31 && v as i64 <= (1u64 << 31) as i64 - 1 || 32 == 64 {
                let mut c = b;
                { let mut m = S1_1::new(&mut c[..]); m.set_f32(v); }
                assert!(S1_1::new(&c[..]).get_f32() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[14..19], 1, 33);
            assert!(s.get_raw_f33() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 31) as i64) >> 31;
            assert!(s.get_f33() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_1::new(&mut c[..]); m.set_f33(v); }
            assert!(updated::<true>(&b[14..19], &c[14..19], 1, 33, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 14, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_1::new(&mut c[..]); m.set_raw_f33(r); }
            assert!(updated::<true>(&b[14..19], &c[14..19], 1, 33, r as u64) && others(&b, &c, 14, 19), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 32 && v as i64 <= (1u64 << 32) as i64 - 1 || 33 == 64 {
                let mut c = b;
                { let mut m = S1_1::new(&mut c[..]); m.set_f33(v); }
                assert!(S1_1::new(&c[..]).get_f33() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o1_g2() {
        use crate::ibeq::*;
        const N: usize = 37;
        assert!(<S1_2<()> as FixedSize>::SIZE == N && SIZE_S1_2 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S1_2::new(&b[..]);
        {
            let raw = field::<true>(&b[0..6], 1, 40);
            assert!(s.get_raw_f40() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 24) as i64) >> 24;
            assert!(s.get_f40() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_2::new(&mut c[..]); m.set_f40(v); }
            assert!(updated::<true>(&b[0..6], &c[0..6], 1, 40, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_2::new(&mut c[..]); m.set_raw_f40(r); }
            assert!(updated::<true>(&b[0..6], &c[0..6], 1, 40, r as u64) && others(&b, &c, 0, 6), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 39 && v as i64 <= (1u64 << 39) as i64 - 1 || 40 == 64 {
                let mut c = b;
                { let mut m = S1_2::new(&mut c[..]); m.set_f40(v); }
                assert!(S1_2::new(&c[..]).get_f40() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[5..13], 1, 56);
            assert!(s.get_raw_f56() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 8) as i64) >> 8;
            assert!(s.get_f56() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_2::new(&mut c[..]); m.set_f56(v); }
            assert!(updated::<true>(&b[5..13], &c[5..13], 1, 56, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_2::new(&mut c[..]); m.set_raw_f56(r); }
            assert!(updated::<true>(&b[5..13], &c[5..13], 1, 56, r as u64) && others(&b, &c, 5, 13), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 55 && v as i64 <= (1u64 << 55) as i64 - 1 || 56 == 64 {
                let mut c = b;
                { let mut m = S1_2::new(&mut c[..]); m.set_f56(v); }
                assert!(S1_2::new(&c[..]).get_f56() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[12..20], 1, 57);
            assert!(s.get_raw_f57() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 7) as i64) >> 7;
            assert!(s.get_f57() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_2::new(&mut c[..]); m.set_f57(v); }
            assert!(updated::<true>(&b[12..20], &c[12..20], 1, 57, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_2::new(&mut c[..]); m.set_raw_f57(r); }
            assert!(updated::<true>(&b[12..20], &c[12..20], 1, 57, r as u64) && others(&b, &c, 12, 20), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 56 && v as i64 <= (1u64 << 56) as i64 - 1 || 57 == 64 {
                let mut c = b;
                { let mut m = S1_2::new(&mut c[..]); m.set_f57(v); }
                assert!(S1_2::new(&c[..]).get_f57() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[20..28], 1, 63);
            assert!(s.get_raw_f63() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 1) as i64) >> 1;
            assert!(s.get_f63() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_2::new(&mut c[..]); m.set_f63(v); }
            assert!(updated::<true>(&b[20..28], &c[20..28], 1, 63, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 28), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_2::new(&mut c[..]); m.set_raw_f63(r); }
            assert!(updated::<true>(&b[20..28], &c[20..28], 1, 63, r as u64) && others(&b, &c, 20, 28), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 62 && v as i64 <= (1u64 << 62) as i64 - 1 || 63 == 64 {
                let mut c = b;
                { let mut m = S1_2::new(&mut c[..]); m.set_f63(v); }
                assert!(S1_2::new(&c[..]).get_f63() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[28..37], 1, 64);
            assert!(s.get_raw_f64() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 0) as i64) >> 0;
            assert!(s.get_f64() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_2::new(&mut c[..]); m.set_f64(v); }
            assert!(updated::<true>(&b[28..37], &c[28..37], 1, 64, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 28, 37), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_2::new(&mut c[..]); m.set_raw_f64(r); }
            assert!(updated::<true>(&b[28..37], &c[28..37], 1, 64, r as u64) && others(&b, &c, 28, 37), "the raw setter replaces the bits of the field only");
            {
                let mut c = b;
                { let mut m = S1_2::new(&mut c[..]); m.set_f64(v); }
                assert!(S1_2::new(&c[..]).get_f64() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o2_g0() {
        use crate::ibeq::*;
        const N: usize = 9;
        assert!(<S2_0<()> as FixedSize>::SIZE == N && SIZE_S2_0 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S2_0::new(&b[..]);
        {
            let raw = field::<true>(&b[0..1], 2, 1);
            assert!(s.get_raw_f1() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 63) as i64) >> 63;
            assert!(s.get_f1() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_0::new(&mut c[..]); m.set_f1(v); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 2, 1, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_0::new(&mut c[..]); m.set_raw_f1(r); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 2, 1, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 0 && v as i64 <= (1u64 << 0) as i64 - 1 || 1 == 64 {
                let mut c = b;
                { let mut m = S2_0::new(&mut c[..]); m.set_f1(v); }
                assert!(S2_0::new(&c[..]).get_f1() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[1..2], 2, 3);
            assert!(s.get_raw_f3() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 61) as i64) >> 61;
            assert!(s.get_f3() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_0::new(&mut c[..]); m.set_f3(v); }
            assert!(updated::<true>(&b[1..2], &c[1..2], 2, 3, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_0::new(&mut c[..]); m.set_raw_f3(r); }
            assert!(updated::<true>(&b[1..2], &c[1..2], 2, 3, r as u64) && others(&b, &c, 1, 2), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 2 && v as i64 <= (1u64 << 2) as i64 - 1 || 3 == 64 {
                let mut c = b;
                { let mut m = S2_0::new(&mut c[..]); m.set_f3(v); }
                assert!(S2_0::new(&c[..]).get_f3() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[2..4], 2, 7);
            assert!(s.get_raw_f7() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 57) as i64) >> 57;
            assert!(s.get_f7() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_0::new(&mut c[..]); m.set_f7(v); }
            assert!(updated::<true>(&b[2..4], &c[2..4], 2, 7, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_0::new(&mut c[..]); m.set_raw_f7(r); }
            assert!(updated::<true>(&b[2..4], &c[2..4], 2, 7, r as u64) && others(&b, &c, 2, 4), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 6 && v as i64 <= (1u64 << 6) as i64 - 1 || 7 == 64 {
                let mut c = b;
                { let mut m = S2_0::new(&mut c[..]); m.set_f7(v); }
                assert!(S2_0::new(&c[..]).get_f7() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[3..5], 2, 8);
            assert!(s.get_raw_f8() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 56) as i64) >> 56;
            assert!(s.get_f8() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_0::new(&mut c[..]); m.set_f8(v); }
            assert!(updated::<true>(&b[3..5], &c[3..5], 2, 8, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_0::new(&mut c[..]); m.set_raw_f8(r); }
            assert!(updated::<true>(&b[3..5], &c[3..5], 2, 8, r as u64) && others(&b, &c, 3, 5), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 7 && v as i64 <= (1u64 << 7) as i64 - 1 || 8 == 64 {
                let mut c = b;
                { let mut m = S2_0::new(&mut c[..]); m.set_f8(v); }
                assert!(S2_0::new(&c[..]).get_f8() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[4..6], 2, 9);
            assert!(s.get_raw_f9() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 55) as i64) >> 55;
            assert!(s.get_f9() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_0::new(&mut c[..]); m.set_f9(v); }
            assert!(updated::<true>(&b[4..6], &c[4..6], 2, 9, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_0::new(&mut c[..]); m.set_raw_f9(r); }
            assert!(updated::<true>(&b[4..6], &c[4..6], 2, 9, r as u64) && others(&b, &c, 4, 6), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 8 && v as i64 <= (1u64 << 8) as i64 - 1 || 9 == 64 {
                let mut c = b;
                { let mut m = S2_0::new(&mut c[..]); m.set_f9(v); }
                assert!(S2_0::new(&c[..]).get_f9() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[6..9], 2, 16);
            assert!(s.get_raw_f16() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 48) as i64) >> 48;
            assert!(s.get_f16() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_0::new(&mut c[..]); m.set_f16(v); }
            assert!(updated::<true>(&b[6..9], &c[6..9], 2, 16, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 9), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_0::new(&mut c[..]); m.set_raw_f16(r); }
            assert!(updated::<true>(&b[6..9], &c[6..9], 2, 16, r as u64) && others(&b, &c, 6, 9), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 15 && v as i64 <= (1u64 << 15) as i64 - 1 || 16 == 64 {
                let mut c = b;
                { let mut m = S2_0::new(&mut c[..]); m.set_f16(v); }
                assert!(S2_0::new(&c[..]).get_f16() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o2_g1() {
        use crate::ibeq::*;
        const N: usize = 19;
        assert!(<S2_1<()> as FixedSize>::SIZE == N && SIZE_S2_1 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S2_1::new(&b[..]);
        {
            let raw = field::<true>(&b[0..3], 2, 17);
            assert!(s.get_raw_f17() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 47) as i64) >> 47;
            assert!(s.get_f17() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_1::new(&mut c[..]); m.set_f17(v); }
            assert!(updated::<true>(&b[0..3], &c[0..3], 2, 17, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_1::new(&mut c[..]); m.set_raw_f17(r); }
            assert!(updated::<true>(&b[0..3], &c[0..3], 2, 17, r as u64) && others(&b, &c, 0, 3), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 16 && v as i64 <= (1u64 << 16) as i64 - 1 || 17 == 64 {
                let mut c = b;
                { let mut m = S2_1::new(&mut c[..]); m.set_f17(v); }
                assert!(S2_1::new(&c[..]).get_f17() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[3..7], 2, 24);
            assert!(s.get_raw_f24() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 40) as i64) >> 40;
            assert!(s.get_f24() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_1::new(&mut c[..]); m.set_f24(v); }
            assert!(updated::<true>(&b[3..7], &c[3..7], 2, 24, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_1::new(&mut c[..]); m.set_raw_f24(r); }
            assert!(updated::<true>(&b[3..7], &c[3..7], 2, 24, r as u64) && others(&b, &c, 3, 7), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 23 && v as i64 <= (1u64 << 23) as i64 - 1 || 24 == 64 {
                let mut c = b;
                { let mut m = S2_1::new(&mut c[..]); m.set_f24(v); }
                assert!(S2_1::new(&c[..]).get_f24() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[6..10], 2, 25);
            assert!(s.get_raw_f25() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 39) as i64) >> 39;
            assert!(s.get_f25() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_1::new(&mut c[..]); m.set_f25(v); }
            assert!(updated::<true>(&b[6..10], &c[6..10], 2, 25, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_1::new(&mut c[..]); m.set_raw_f25(r); }
            assert!(updated::<true>(&b[6..10], &c[6..10], 2, 25, r as u64) && others(&b, &c, 6, 10), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 24 && v as i64 <= (1u64 << 24) as i64 - 1 || 25 == 64 {
                let mut c = b;
                { let mut m = S2_1::new(&mut c[..]); m.set_f25(v); }
                assert!(S2_1::new(&c[..]).get_f25() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[10..15], 2, 32);
            assert!(s.get_raw_f32() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 32) as i64) >> 32;
            assert!(s.get_f32() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_1::new(&mut c[..]); m.set_f32(v); }
            assert!(updated::<true>(&b[10..15], &c[10..15], 2, 32, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 15), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_1::new(&mut c[..]); m.set_raw_f32(r); }
            assert!(updated::<true>(&b[10..15], &c[10..15], 2, 32, r as u64) && others(&b, &c, 10, 15), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 31 && v as i64 <= (1u64 << 31) as i64 - 1 || 32 == 64 {
                let mut c = b;
                { let mut m = S2_1::new(&mut c[..]); m.set_f32(v); }
                assert!(S2_1::new(&c[..]).get_f32() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[14..19], 2, 33);
            assert!(s.get_raw_f33() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 31) as i64) >> 31;
            assert!(s.get_f33() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_1::new(&mut c[..]); m.set_f33(v); }
            assert!(updated::<true>(&b[14..19], &c[14..19], 2, 33, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 14, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_1::new(&mut c[..]); m.set_raw_f33(r); }
            assert!(updated::<true>(&b[14..19], &c[14..19], 2, 33, r as u64) && others(&b, &c, 14, 19), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 32 && v as i64 <= (1u64 << 32) as i64 - 1 || 33 == 64 {
                let mut c = b;
                { let mut m = S2_1::new(&mut c[..]); m.set_f33(v); }
                assert!(S2_1::new(&c[..]).get_f33() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o2_g2() {
        use crate::ibeq::*;
        const N: usize = 37;
        assert!(<S2_2<()> as FixedSize>::SIZE == N && SIZE_S2_2 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S2_2::new(&b[..]);
        {
            let raw = field::<true>(&b[0..6], 2, 40);
            assert!(s.get_raw_f40() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 24) as i64) >> 24;
            assert!(s.get_f40() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_2::new(&mut c[..]); m.set_f40(v); }
            assert!(updated::<true>(&b[0..6], &c[0..6], 2, 40, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_2::new(&mut c[..]); m.set_raw_f40(r); }
            assert!(updated::<true>(&b[0..6], &c[0..6], 2, 40, r as u64) && others(&b, &c, 0, 6), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 39 && v as i64 <= (1u64 << 39) as i64 - 1 || 40 == 64 {
                let mut c = b;
                { let mut m = S2_2::new(&mut c[..]); m.set_f40(v); }
                assert!(S2_2::new(&c[..]).get_f40() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[5..13], 2, 56);
            assert!(s.get_raw_f56() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 8) as i64) >> 8;
            assert!(s.get_f56() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_2::new(&mut c[..]); m.set_f56(v); }
            assert!(updated::<true>(&b[5..13], &c[5..13], 2, 56, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_2::new(&mut c[..]); m.set_raw_f56(r); }
            assert!(updated::<true>(&b[5..13], &c[5..13], 2, 56, r as u64) && others(&b, &c, 5, 13), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 55 && v as i64 <= (1u64 << 55) as i64 - 1 || 56 == 64 {
                let mut c = b;
                { let mut m = S2_2::new(&mut c[..]); m.set_f56(v); }
                assert!(S2_2::new(&c[..]).get_f56() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[12..20], 2, 57);
            assert!(s.get_raw_f57() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 7) as i64) >> 7;
            assert!(s.get_f57() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_2::new(&mut c[..]); m.set_f57(v); }
            assert!(updated::<true>(&b[12..20], &c[12..20], 2, 57, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_2::new(&mut c[..]); m.set_raw_f57(r); }
            assert!(updated::<true>(&b[12..20], &c[12..20], 2, 57, r as u64) && others(&b, &c, 12, 20), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 56 && v as i64 <= (1u64 << 56) as i64 - 1 || 57 == 64 {
                let mut c = b;
                { let mut m = S2_2::new(&mut c[..]); m.set_f57(v); }
                assert!(S2_2::new(&c[..]).get_f57() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[20..29], 2, 63);
            assert!(s.get_raw_f63() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 1) as i64) >> 1;
            assert!(s.get_f63() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_2::new(&mut c[..]); m.set_f63(v); }
            assert!(updated::<true>(&b[20..29], &c[20..29], 2, 63, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_2::new(&mut c[..]); m.set_raw_f63(r); }
            assert!(updated::<true>(&b[20..29], &c[20..29], 2, 63, r as u64) && others(&b, &c, 20, 29), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 62 && v as i64 <= (1u64 << 62) as i64 - 1 || 63 == 64 {
                let mut c = b;
                { let mut m = S2_2::new(&mut c[..]); m.set_f63(v); }
                assert!(S2_2::new(&c[..]).get_f63() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[28..37], 2, 64);
            assert!(s.get_raw_f64() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 0) as i64) >> 0;
            assert!(s.get_f64() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_2::new(&mut c[..]); m.set_f64(v); }
            assert!(updated::<true>(&b[28..37], &c[28..37], 2, 64, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 28, 37), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_2::new(&mut c[..]); m.set_raw_f64(r); }
            assert!(updated::<true>(&b[28..37], &c[28..37], 2, 64, r as u64) && others(&b, &c, 28, 37), "the raw setter replaces the bits of the field only");
            {
                let mut c = b;
                { let mut m = S2_2::new(&mut c[..]); m.set_f64(v); }
                assert!(S2_2::new(&c[..]).get_f64() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o3_g0() {
        use crate::ibeq::*;
        const N: usize = 9;
        assert!(<S3_0<()> as FixedSize>::SIZE == N && SIZE_S3_0 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S3_0::new(&b[..]);
        {
            let raw = field::<true>(&b[0..1], 3, 1);
            assert!(s.get_raw_f1() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 63) as i64) >> 63;
            assert!(s.get_f1() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_0::new(&mut c[..]); m.set_f1(v); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 3, 1, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_0::new(&mut c[..]); m.set_raw_f1(r); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 3, 1, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 0 && v as i64 <= (1u64 << 0) as i64 - 1 || 1 == 64 {
                let mut c = b;
                { let mut m = S3_0::new(&mut c[..]); m.set_f1(v); }
                assert!(S3_0::new(&c[..]).get_f1() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[1..2], 3, 3);
            assert!(s.get_raw_f3() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 61) as i64) >> 61;
            assert!(s.get_f3() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_0::new(&mut c[..]); m.set_f3(v); }
            assert!(updated::<true>(&b[1..2], &c[1..2], 3, 3, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_0::new(&mut c[..]); m.set_raw_f3(r); }
            assert!(updated::<true>(&b[1..2], &c[1..2], 3, 3, r as u64) && others(&b, &c, 1, 2), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 2 && v as i64 <= (1u64 << 2) as i64 - 1 || 3 == 64 {
                let mut c = b;
                { let mut m = S3_0::new(&mut c[..]); m.set_f3(v); }
                assert!(S3_0::new(&c[..]).get_f3() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[2..4], 3, 7);
            assert!(s.get_raw_f7() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 57) as i64) >> 57;
            assert!(s.get_f7() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_0::new(&mut c[..]); m.set_f7(v); }
            assert!(updated::<true>(&b[2..4], &c[2..4], 3, 7, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_0::new(&mut c[..]); m.set_raw_f7(r); }
            assert!(updated::<true>(&b[2..4], &c[2..4], 3, 7, r as u64) && others(&b, &c, 2, 4), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 6 && v as i64 <= (1u64 << 6) as i64 - 1 || 7 == 64 {
                let mut c = b;
                { let mut m = S3_0::new(&mut c[..]); m.set_f7(v); }
                assert!(S3_0::new(&c[..]).get_f7() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[3..5], 3, 8);
            assert!(s.get_raw_f8() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 56) as i64) >> 56;
            assert!(s.get_f8() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_0::new(&mut c[..]); m.set_f8(v); }
            assert!(updated::<true>(&b[3..5], &c[3..5], 3, 8, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_0::new(&mut c[..]); m.set_raw_f8(r); }
            assert!(updated::<true>(&b[3..5], &c[3..5], 3, 8, r as u64) && others(&b, &c, 3, 5), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 7 && v as i64 <= (1u64 << 7) as i64 - 1 || 8 == 64 {
                let mut c = b;
                { let mut m = S3_0::new(&mut c[..]); m.set_f8(v); }
                assert!(S3_0::new(&c[..]).get_f8() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[4..6], 3, 9);
            assert!(s.get_raw_f9() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 55) as i64) >> 55;
            assert!(s.get_f9() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_0::new(&mut c[..]); m.set_f9(v); }
            assert!(updated::<true>(&b[4..6], &c[4..6], 3, 9, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_0::new(&mut c[..]); m.set_raw_f9(r); }
            assert!(updated::<true>(&b[4..6], &c[4..6], 3, 9, r as u64) && others(&b, &c, 4, 6), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 8 && v as i64 <= (1u64 << 8) as i64 - 1 || 9 == 64 {
                let mut c = b;
                { let mut m = S3_0::new(&mut c[..]); m.set_f9(v); }
                assert!(S3_0::new(&c[..]).get_f9() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[6..9], 3, 16);
            assert!(s.get_raw_f16() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 48) as i64) >> 48;
            assert!(s.get_f16() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_0::new(&mut c[..]); m.set_f16(v); }
            assert!(updated::<true>(&b[6..9], &c[6..9], 3, 16, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 9), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_0::new(&mut c[..]); m.set_raw_f16(r); }
            assert!(updated::<true>(&b[6..9], &c[6..9], 3, 16, r as u64) && others(&b, &c, 6, 9), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 15 && v as i64 <= (1u64 << 15) as i64 - 1 || 16 == 64 {
                let mut c = b;
                { let mut m = S3_0::new(&mut c[..]); m.set_f16(v); }
                assert!(S3_0::new(&c[..]).get_f16() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o3_g1() {
        use crate::ibeq::*;
        const N: usize = 19;
        assert!(<S3_1<()> as FixedSize>::SIZE == N && SIZE_S3_1 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S3_1::new(&b[..]);
        {
            let raw = field::<true>(&b[0..3], 3, 17);
            assert!(s.get_raw_f17() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 47) as i64) >> 47;
            assert!(s.get_f17() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_1::new(&mut c[..]); m.set_f17(v); }
            assert!(updated::<true>(&b[0..3], &c[0..3], 3, 17, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_1::new(&mut c[..]); m.set_raw_f17(r); }
            assert!(updated::<true>(&b[0..3], &c[0..3], 3, 17, r as u64) && others(&b, &c, 0, 3), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 16 && v as i64 <= (1u64 << 16) as i64 - 1 || 17 == 64 {
                let mut c = b;
                { let mut m = S3_1::new(&mut c[..]); m.set_f17(v); }
                assert!(S3_1::new(&c[..]).get_f17() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[3..7], 3, 24);
            assert!(s.get_raw_f24() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 40) as i64) >> 40;
            assert!(s.get_f24() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_1::new(&mut c[..]); m.set_f24(v); }
            assert!(updated::<true>(&b[3..7], &c[3..7], 3, 24, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_1::new(&mut c[..]); m.set_raw_f24(r); }
            assert!(updated::<true>(&b[3..7], &c[3..7], 3, 24, r as u64) && others(&b, &c, 3, 7), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 23 && v as i64 <= (1u64 << 23) as i64 - 1 || 24 == 64 {
                let mut c = b;
                { let mut m = S3_1::new(&mut c[..]); m.set_f24(v); }
                assert!(S3_1::new(&c[..]).get_f24() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[6..10], 3, 25);
            assert!(s.get_raw_f25() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 39) as i64) >> 39;
            assert!(s.get_f25() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_1::new(&mut c[..]); m.set_f25(v); }
            assert!(updated::<true>(&b[6..10], &c[6..10], 3, 25, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_1::new(&mut c[..]); m.set_raw_f25(r); }
            assert!(updated::<true>(&b[6..10], &c[6..10], 3, 25, r as u64) && others(&b, &c, 6, 10), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 24 && v as i64 <= (1u64 << 24) as i64 - 1 || 25 == 64 {
                let mut c = b;
                { let mut m = S3_1::new(&mut c[..]); m.set_f25(v); }
                assert!(S3_1::new(&c[..]).get_f25() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[10..15], 3, 32);
            assert!(s.get_raw_f32() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 32) as i64) >> 32;
            assert!(s.get_f32() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_1::new(&mut c[..]); m.set_f32(v); }
            assert!(updated::<true>(&b[10..15], &c[10..15], 3, 32, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 15), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_1::new(&mut c[..]); m.set_raw_f32(r); }
            assert!(updated::<true>(&b[10..15], &c[10..15], 3, 32, r as u64) && others(&b, &c, 10, 15), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 31 && v as i64 <= (1u64 << 31) as i64 - 1 || 32 == 64 {
                let mut c = b;
                { let mut m = S3_1::new(&mut c[..]); m.set_f32(v); }
                assert!(S3_1::new(&c[..]).get_f32() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[14..19], 3, 33);
            assert!(s.get_raw_f33() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 31) as i64) >> 31;
            assert!(s.get_f33() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_1::new(&mut c[..]); m.set_f33(v); }
            assert!(updated::<true>(&b[14..19], &c[14..19], 3, 33, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 14, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_1::new(&mut c[..]); m.set_raw_f33(r); }
            assert!(updated::<true>(&b[14..19], &c[14..19], 3, 33, r as u64) && others(&b, &c, 14, 19), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 32 && v as i64 <= (1u64 << 32) as i64 - 1 || 33 == 64 {
                let mut c = b;
                { let mut m = S3_1::new(&mut c[..]); m.set_f33(v); }
                assert!(S3_1::new(&c[..]).get_f33() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o3_g2() {
        use crate::ibeq::*;
        const N: usize = 37;
        assert!(<S3_2<()> as FixedSize>::SIZE == N && SIZE_S3_2 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S3_2::new(&b[..]);
        {
            let raw = field::<true>(&b[0..6], 3, 40);
            assert!(s.get_raw_f40() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 24) as i64) >> 24;
            assert!(s.get_f40() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_2::new(&mut c[..]); m.set_f40(v); }
            assert!(updated::<true>(&b[0..6], &c[0..6], 3, 40, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_2::new(&mut c[..]); m.set_raw_f40(r); }
            assert!(updated::<true>(&b[0..6], &c[0..6], 3, 40, r as u64) && others(&b, &c, 0, 6), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 39 && v as i64 <= (1u64 << 39) as i64 - 1 || 40 == 64 {
                let mut c = b;
                { let mut m = S3_2::new(&mut c[..]); m.set_f40(v); }
                assert!(S3_2::new(&c[..]).get_f40() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[5..13], 3, 56);
            assert!(s.get_raw_f56() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 8) as i64) >> 8;
            assert!(s.get_f56() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_2::new(&mut c[..]); m.set_f56(v); }
            assert!(updated::<true>(&b[5..13], &c[5..13], 3, 56, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_2::new(&mut c[..]); m.set_raw_f56(r); }
            assert!(updated::<true>(&b[5..13], &c[5..13], 3, 56, r as u64) && others(&b, &c, 5, 13), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 55 && v as i64 <= (1u64 << 55) as i64 - 1 || 56 == 64 {
                let mut c = b;
                { let mut m = S3_2::new(&mut c[..]); m.set_f56(v); }
                assert!(S3_2::new(&c[..]).get_f56() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[12..20], 3, 57);
            assert!(s.get_raw_f57() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 7) as i64) >> 7;
            assert!(s.get_f57() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_2::new(&mut c[..]); m.set_f57(v); }
            assert!(updated::<true>(&b[12..20], &c[12..20], 3, 57, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_2::new(&mut c[..]); m.set_raw_f57(r); }
            assert!(updated::<true>(&b[12..20], &c[12..20], 3, 57, r as u64) && others(&b, &c, 12, 20), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 56 && v as i64 <= (1u64 << 56) as i64 - 1 || 57 == 64 {
                let mut c = b;
                { let mut m = S3_2::new(&mut c[..]); m.set_f57(v); }
                assert!(S3_2::new(&c[..]).get_f57() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[20..29], 3, 63);
            assert!(s.get_raw_f63() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 1) as i64) >> 1;
            assert!(s.get_f63() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_2::new(&mut c[..]); m.set_f63(v); }
            assert!(updated::<true>(&b[20..29], &c[20..29], 3, 63, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_2::new(&mut c[..]); m.set_raw_f63(r); }
            assert!(updated::<true>(&b[20..29], &c[20..29], 3, 63, r as u64) && others(&b, &c, 20, 29), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 62 && v as i64 <= (1u64 << 62) as i64 - 1 || 63 == 64 {
                let mut c = b;
                { let mut m = S3_2::new(&mut c[..]); m.set_f63(v); }
                assert!(S3_2::new(&c[..]).get_f63() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[28..37], 3, 64);
            assert!(s.get_raw_f64() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 0) as i64) >> 0;
            assert!(s.get_f64() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_2::new(&mut c[..]); m.set_f64(v); }
            assert!(updated::<true>(&b[28..37], &c[28..37], 3, 64, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 28, 37), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_2::new(&mut c[..]); m.set_raw_f64(r); }
            assert!(updated::<true>(&b[28..37], &c[28..37], 3, 64, r as u64) && others(&b, &c, 28, 37), "the raw setter replaces the bits of the field only");
            {
                let mut c = b;
                { let mut m = S3_2::new(&mut c[..]); m.set_f64(v); }
                assert!(S3_2::new(&c[..]).get_f64() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o4_g0() {
        use crate::ibeq::*;
        const N: usize = 9;
        assert!(<S4_0<()> as FixedSize>::SIZE == N && SIZE_S4_0 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S4_0::new(&b[..]);
        {
            let raw = field::<true>(&b[0..1], 4, 1);
            assert!(s.get_raw_f1() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 63) as i64) >> 63;
            assert!(s.get_f1() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_0::new(&mut c[..]); m.set_f1(v); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 4, 1, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_0::new(&mut c[..]); m.set_raw_f1(r); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 4, 1, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 0 && v as i64 <= (1u64 << 0) as i64 - 1 || 1 == 64 {
                let mut c = b;
                { let mut m = S4_0::new(&mut c[..]); m.set_f1(v); }
                assert!(S4_0::new(&c[..]).get_f1() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[1..2], 4, 3);
            assert!(s.get_raw_f3() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 61) as i64) >> 61;
            assert!(s.get_f3() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_0::new(&mut c[..]); m.set_f3(v); }
            assert!(updated::<true>(&b[1..2], &c[1..2], 4, 3, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_0::new(&mut c[..]); m.set_raw_f3(r); }
            assert!(updated::<true>(&b[1..2], &c[1..2], 4, 3, r as u64) && others(&b, &c, 1, 2), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 2 && v as i64 <= (1u64 << 2) as i64 - 1 || 3 == 64 {
                let mut c = b;
                { let mut m = S4_0::new(&mut c[..]); m.set_f3(v); }
                assert!(S4_0::new(&c[..]).get_f3() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[2..4], 4, 7);
            assert!(s.get_raw_f7() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 57) as i64) >> 57;
            assert!(s.get_f7() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_0::new(&mut c[..]); m.set_f7(v); }
            assert!(updated::<true>(&b[2..4], &c[2..4], 4, 7, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_0::new(&mut c[..]); m.set_raw_f7(r); }
            assert!(updated::<true>(&b[2..4], &c[2..4], 4, 7, r as u64) && others(&b, &c, 2, 4), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 6 && v as i64 <= (1u64 << 6) as i64 - 1 || 7 == 64 {
                let mut c = b;
                { let mut m = S4_0::new(&mut c[..]); m.set_f7(v); }
                assert!(S4_0::new(&c[..]).get_f7() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[3..5], 4, 8);
            assert!(s.get_raw_f8() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 56) as i64) >> 56;
            assert!(s.get_f8() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_0::new(&mut c[..]); m.set_f8(v); }
            assert!(updated::<true>(&b[3..5], &c[3..5], 4, 8, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_0::new(&mut c[..]); m.set_raw_f8(r); }
            assert!(updated::<true>(&b[3..5], &c[3..5], 4, 8, r as u64) && others(&b, &c, 3, 5), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 7 && v as i64 <= (1u64 << 7) as i64 - 1 || 8 == 64 {
                let mut c = b;
                { let mut m = S4_0::new(&mut c[..]); m.set_f8(v); }
                assert!(S4_0::new(&c[..]).get_f8() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[4..6], 4, 9);
            assert!(s.get_raw_f9() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 55) as i64) >> 55;
            assert!(s.get_f9() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_0::new(&mut c[..]); m.set_f9(v); }
            assert!(updated::<true>(&b[4..6], &c[4..6], 4, 9, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_0::new(&mut c[..]); m.set_raw_f9(r); }
            assert!(updated::<true>(&b[4..6], &c[4..6], 4, 9, r as u64) && others(&b, &c, 4, 6), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 8 && v as i64 <= (1u64 << 8) as i64 - 1 || 9 == 64 {
                let mut c = b;
                { let mut m = S4_0::new(&mut c[..]); m.set_f9(v); }
                assert!(S4_0::new(&c[..]).get_f9() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[6..9], 4, 16);
            assert!(s.get_raw_f16() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 48) as i64) >> 48;
            assert!(s.get_f16() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_0::new(&mut c[..]); m.set_f16(v); }
            assert!(updated::<true>(&b[6..9], &c[6..9], 4, 16, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 9), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_0::new(&mut c[..]); m.set_raw_f16(r); }
            assert!(updated::<true>(&b[6..9], &c[6..9], 4, 16, r as u64) && others(&b, &c, 6, 9), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 15 && v as i64 <= (1u64 << 15) as i64 - 1 || 16 == 64 {
                let mut c = b;
                { let mut m = S4_0::new(&mut c[..]); m.set_f16(v); }
                assert!(S4_0::new(&c[..]).get_f16() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o4_g1() {
        use crate::ibeq::*;
        const N: usize = 19;
        assert!(<S4_1<()> as FixedSize>::SIZE == N && SIZE_S4_1 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S4_1::new(&b[..]);
        {
            let raw = field::<true>(&b[0..3], 4, 17);
            assert!(s.get_raw_f17() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 47) as i64) >> 47;
            assert!(s.get_f17() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_1::new(&mut c[..]); m.set_f17(v); }
            assert!(updated::<true>(&b[0..3], &c[0..3], 4, 17, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_1::new(&mut c[..]); m.set_raw_f17(r); }
            assert!(updated::<true>(&b[0..3], &c[0..3], 4, 17, r as u64) && others(&b, &c, 0, 3), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 16 && v as i64 <= (1u64 << 16) as i64 - 1 || 17 == 64 {
                let mut c = b;
                { let mut m = S4_1::new(&mut c[..]); m.set_f17(v); }
                assert!(S4_1::new(&c[..]).get_f17() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[3..7], 4, 24);
            assert!(s.get_raw_f24() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 40) as i64) >> 40;
            assert!(s.get_f24() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_1::new(&mut c[..]); m.set_f24(v); }
            assert!(updated::<true>(&b[3..7], &c[3..7], 4, 24, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_1::new(&mut c[..]); m.set_raw_f24(r); }
            assert!(updated::<true>(&b[3..7], &c[3..7], 4, 24, r as u64) && others(&b, &c, 3, 7), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 23 && v as i64 <= (1u64 << 23) as i64 - 1 || 24 == 64 {
                let mut c = b;
                { let mut m = S4_1::new(&mut c[..]); m.set_f24(v); }
                assert!(S4_1::new(&c[..]).get_f24() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[6..10], 4, 25);
            assert!(s.get_raw_f25() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 39) as i64) >> 39;
            assert!(s.get_f25() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_1::new(&mut c[..]); m.set_f25(v); }
            assert!(updated::<true>(&b[6..10], &c[6..10], 4, 25, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_1::new(&mut c[..]); m.set_raw_f25(r); }
            assert!(updated::<true>(&b[6..10], &c[6..10], 4, 25, r as u64) && others(&b, &c, 6, 10), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 24 && v as i64 <= (1u64 << 24) as i64 - 1 || 25 == 64 {
                let mut c = b;
                { let mut m = S4_1::new(&mut c[..]); m.set_f25(v); }
                assert!(S4_1::new(&c[..]).get_f25() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[10..15], 4, 32);
            assert!(s.get_raw_f32() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 32) as i64) >> 32;
            assert!(s.get_f32() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_1::new(&mut c[..]); m.set_f32(v); }
            assert!(updated::<true>(&b[10..15], &c[10..15], 4, 32, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 15), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_1::new(&mut c[..]); m.set_raw_f32(r); }
            assert!(updated::<true>(&b[10..15], &c[10..15], 4, 32, r as u64) && others(&b, &c, 10, 15), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 31 && v as i64 <= (1u64 << 31) as i64 - 1 || 32 == 64 {
                let mut c = b;
                { let mut m = S4_1::new(&mut c[..]); m.set_f32(v); }
                assert!(S4_1::new(&c[..]).get_f32() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[14..19], 4, 33);
            assert!(s.get_raw_f33() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 31) as i64) >> 31;
            assert!(s.get_f33() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_1::new(&mut c[..]); m.set_f33(v); }
            assert!(updated::<true>(&b[14..19], &c[14..19], 4, 33, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 14, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_1::new(&mut c[..]); m.set_raw_f33(r); }
            assert!(updated::<true>(&b[14..19], &c[14..19], 4, 33, r as u64) && others(&b, &c, 14, 19), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 32 && v as i64 <= (1u64 << 32) as i64 - 1 || 33 == 64 {
                let mut c = b;
                { let mut m = S4_1::new(&mut c[..]); m.set_f33(v); }
                assert!(S4_1::new(&c[..]).get_f33() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o4_g2() {
        use crate::ibeq::*;
        const N: usize = 37;
        assert!(<S4_2<()> as FixedSize>::SIZE == N && SIZE_S4_2 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S4_2::new(&b[..]);
        {
            let raw = field::<true>(&b[0..6], 4, 40);
            assert!(s.get_raw_f40() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 24) as i64) >> 24;
            assert!(s.get_f40() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_2::new(&mut c[..]); m.set_f40(v); }
            assert!(updated::<true>(&b[0..6], &c[0..6], 4, 40, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_2::new(&mut c[..]); m.set_raw_f40(r); }
            assert!(updated::<true>(&b[0..6], &c[0..6], 4, 40, r as u64) && others(&b, &c, 0, 6), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 39 && v as i64 <= (1u64 << 39) as i64 - 1 || 40 == 64 {
                let mut c = b;
                { let mut m = S4_2::new(&mut c[..]); m.set_f40(v); }
                assert!(S4_2::new(&c[..]).get_f40() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[5..13], 4, 56);
            assert!(s.get_raw_f56() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 8) as i64) >> 8;
            assert!(s.get_f56() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_2::new(&mut c[..]); m.set_f56(v); }
            assert!(updated::<true>(&b[5..13], &c[5..13], 4, 56, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_2::new(&mut c[..]); m.set_raw_f56(r); }
            assert!(updated::<true>(&b[5..13], &c[5..13], 4, 56, r as u64) && others(&b, &c, 5, 13), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 55 && v as i64 <= (1u64 << 55) as i64 - 1 || 56 == 64 {
                let mut c = b;
                { let mut m = S4_2::new(&mut c[..]); m.set_f56(v); }
                assert!(S4_2::new(&c[..]).get_f56() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[12..20], 4, 57);
            assert!(s.get_raw_f57() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 7) as i64) >> 7;
            assert!(s.get_f57() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_2::new(&mut c[..]); m.set_f57(v); }
            assert!(updated::<true>(&b[12..20], &c[12..20], 4, 57, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_2::new(&mut c[..]); m.set_raw_f57(r); }
            assert!(updated::<true>(&b[12..20], &c[12..20], 4, 57, r as u64) && others(&b, &c, 12, 20), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 56 && v as i64 <= (1u64 << 56) as i64 - 1 || 57 == 64 {
                let mut c = b;
                { let mut m = S4_2::new(&mut c[..]); m.set_f57(v); }
                assert!(S4_2::new(&c[..]).get_f57() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[20..29], 4, 63);
            assert!(s.get_raw_f63() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 1) as i64) >> 1;
            assert!(s.get_f63() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_2::new(&mut c[..]); m.set_f63(v); }
            assert!(updated::<true>(&b[20..29], &c[20..29], 4, 63, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_2::new(&mut c[..]); m.set_raw_f63(r); }
            assert!(updated::<true>(&b[20..29], &c[20..29], 4, 63, r as u64) && others(&b, &c, 20, 29), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 62 && v as i64 <= (1u64 << 62) as i64 - 1 || 63 == 64 {
                let mut c = b;
                { let mut m = S4_2::new(&mut c[..]); m.set_f63(v); }
                assert!(S4_2::new(&c[..]).get_f63() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[28..37], 4, 64);
            assert!(s.get_raw_f64() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 0) as i64) >> 0;
            assert!(s.get_f64() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_2::new(&mut c[..]); m.set_f64(v); }
            assert!(updated::<true>(&b[28..37], &c[28..37], 4, 64, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 28, 37), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_2::new(&mut c[..]); m.set_raw_f64(r); }
            assert!(updated::<true>(&b[28..37], &c[28..37], 4, 64, r as u64) && others(&b, &c, 28, 37), "the raw setter replaces the bits of the field only");
            {
                let mut c = b;
                { let mut m = S4_2::new(&mut c[..]); m.set_f64(v); }
                assert!(S4_2::new(&c[..]).get_f64() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o5_g0() {
        use crate::ibeq::*;
        const N: usize = 9;
        assert!(<S5_0<()> as FixedSize>::SIZE == N && SIZE_S5_0 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S5_0::new(&b[..]);
        {
            let raw = field::<true>(&b[0..1], 5, 1);
            assert!(s.get_raw_f1() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 63) as i64) >> 63;
            assert!(s.get_f1() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_0::new(&mut c[..]); m.set_f1(v); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 5, 1, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_0::new(&mut c[..]); m.set_raw_f1(r); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 5, 1, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 0 && v as i64 <= (1u64 << 0) as i64 - 1 || 1 == 64 {
                let mut c = b;
                { let mut m = S5_0::new(&mut c[..]); m.set_f1(v); }
                assert!(S5_0::new(&c[..]).get_f1() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[1..2], 5, 3);
            assert!(s.get_raw_f3() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 61) as i64) >> 61;
            assert!(s.get_f3() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_0::new(&mut c[..]); m.set_f3(v); }
            assert!(updated::<true>(&b[1..2], &c[1..2], 5, 3, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_0::new(&mut c[..]); m.set_raw_f3(r); }
            assert!(updated::<true>(&b[1..2], &c[1..2], 5, 3, r as u64) && others(&b, &c, 1, 2), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 2 && v as i64 <= (1u64 << 2) as i64 - 1 || 3 == 64 {
                let mut c = b;
                { let mut m = S5_0::new(&mut c[..]); m.set_f3(v); }
                assert!(S5_0::new(&c[..]).get_f3() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[2..4], 5, 7);
            assert!(s.get_raw_f7() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 57) as i64) >> 57;
            assert!(s.get_f7() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_0::new(&mut c[..]); m.set_f7(v); }
            assert!(updated::<true>(&b[2..4], &c[2..4], 5, 7, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_0::new(&mut c[..]); m.set_raw_f7(r); }
            assert!(updated::<true>(&b[2..4], &c[2..4], 5, 7, r as u64) && others(&b, &c, 2, 4), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 6 && v as i64 <= (1u64 << 6) as i64 - 1 || 7 == 64 {
                let mut c = b;
                { let mut m = S5_0::new(&mut c[..]); m.set_f7(v); }
                assert!(S5_0::new(&c[..]).get_f7() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[3..5], 5, 8);
            assert!(s.get_raw_f8() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 56) as i64) >> 56;
            assert!(s.get_f8() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_0::new(&mut c[..]); m.set_f8(v); }
            assert!(updated::<true>(&b[3..5], &c[3..5], 5, 8, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_0::new(&mut c[..]); m.set_raw_f8(r); }
            assert!(updated::<true>(&b[3..5], &c[3..5], 5, 8, r as u64) && others(&b, &c, 3, 5), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 7 && v as i64 <= (1u64 << 7) as i64 - 1 || 8 == 64 {
                let mut c = b;
                { let mut m = S5_0::new(&mut c[..]); m.set_f8(v); }
                assert!(S5_0::new(&c[..]).get_f8() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[4..6], 5, 9);
            assert!(s.get_raw_f9() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 55) as i64) >> 55;
            assert!(s.get_f9() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_0::new(&mut c[..]); m.set_f9(v); }
            assert!(updated::<true>(&b[4..6], &c[4..6], 5, 9, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_0::new(&mut c[..]); m.set_raw_f9(r); }
            assert!(updated::<true>(&b[4..6], &c[4..6], 5, 9, r as u64) && others(&b, &c, 4, 6), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 8 && v as i64 <= (1u64 << 8) as i64 - 1 || 9 == 64 {
                let mut c = b;
                { let mut m = S5_0::new(&mut c[..]); m.set_f9(v); }
                assert!(S5_0::new(&c[..]).get_f9() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[6..9], 5, 16);
            assert!(s.get_raw_f16() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 48) as i64) >> 48;
            assert!(s.get_f16() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_0::new(&mut c[..]); m.set_f16(v); }
            assert!(updated::<true>(&b[6..9], &c[6..9], 5, 16, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 9), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_0::new(&mut c[..]); m.set_raw_f16(r); }
            assert!(updated::<true>(&b[6..9], &c[6..9], 5, 16, r as u64) && others(&b, &c, 6, 9), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 15 && v as i64 <= (1u64 << 15) as i64 - 1 || 16 == 64 {
                let mut c = b;
                { let mut m = S5_0::new(&mut c[..]); m.set_f16(v); }
                assert!(S5_0::new(&c[..]).get_f16() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o5_g1() {
        use crate::ibeq::*;
        const N: usize = 19;
        assert!(<S5_1<()> as FixedSize>::SIZE == N && SIZE_S5_1 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S5_1::new(&b[..]);
        {
            let raw = field::<true>(&b[0..3], 5, 17);
            assert!(s.get_raw_f17() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 47) as i64) >> 47;
            assert!(s.get_f17() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_1::new(&mut c[..]); m.set_f17(v); }
            assert!(updated::<true>(&b[0..3], &c[0..3], 5, 17, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_1::new(&mut c[..]); m.set_raw_f17(r); }
            assert!(updated::<true>(&b[0..3], &c[0..3], 5, 17, r as u64) && others(&b, &c, 0, 3), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 16 && v as i64 <= (1u64 << 16) as i64 - 1 || 17 == 64 {
                let mut c = b;
                { let mut m = S5_1::new(&mut c[..]); m.set_f17(v); }
                assert!(S5_1::new(&c[..]).get_f17() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[3..7], 5, 24);
            assert!(s.get_raw_f24() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 40) as i64) >> 40;
            assert!(s.get_f24() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_1::new(&mut c[..]); m.set_f24(v); }
            assert!(updated::<true>(&b[3..7], &c[3..7], 5, 24, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_1::new(&mut c[..]); m.set_raw_f24(r); }
            assert!(updated::<true>(&b[3..7], &c[3..7], 5, 24, r as u64) && others(&b, &c, 3, 7), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 23 && v as i64 <= (1u64 << 23) as i64 - 1 || 24 == 64 {
                let mut c = b;
                { let mut m = S5_1::new(&mut c[..]); m.set_f24(v); }
                assert!(S5_1::new(&c[..]).get_f24() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[6..10], 5, 25);
            assert!(s.get_raw_f25() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 39) as i64) >> 39;
            assert!(s.get_f25() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_1::new(&mut c[..]); m.set_f25(v); }
            assert!(updated::<true>(&b[6..10], &c[6..10], 5, 25, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_1::new(&mut c[..]); m.set_raw_f25(r); }
            assert!(updated::<true>(&b[6..10], &c[6..10], 5, 25, r as u64) && others(&b, &c, 6, 10), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 24 && v as i64 <= (1u64 << 24) as i64 - 1 || 25 == 64 {
                let mut c = b;
                { let mut m = S5_1::new(&mut c[..]); m.set_f25(v); }
                assert!(S5_1::new(&c[..]).get_f25() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[10..15], 5, 32);
            assert!(s.get_raw_f32() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 32) as i64) >> 32;
            assert!(s.get_f32() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_1::new(&mut c[..]); m.set_f32(v); }
            assert!(updated::<true>(&b[10..15], &c[10..15], 5, 32, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 15), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_1::new(&mut c[..]); m.set_raw_f32(r); }
            assert!(updated::<true>(&b[10..15], &c[10..15], 5, 32, r as u64) && others(&b, &c, 10, 15), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 31 && v as i64 <= (1u64 << 31) as i64 - 1 || 32 == 64 {
                let mut c = b;
                { let mut m = S5_1::new(&mut c[..]); m.set_f32(v); }
                assert!(S5_1::new(&c[..]).get_f32() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[14..19], 5, 33);
            assert!(s.get_raw_f33() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 31) as i64) >> 31;
            assert!(s.get_f33() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_1::new(&mut c[..]); m.set_f33(v); }
            assert!(updated::<true>(&b[14..19], &c[14..19], 5, 33, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 14, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_1::new(&mut c[..]); m.set_raw_f33(r); }
            assert!(updated::<true>(&b[14..19], &c[14..19], 5, 33, r as u64) && others(&b, &c, 14, 19), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 32 && v as i64 <= (1u64 << 32) as i64 - 1 || 33 == 64 {
                let mut c = b;
                { let mut m = S5_1::new(&mut c[..]); m.set_f33(v); }
                assert!(S5_1::new(&c[..]).get_f33() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o5_g2() {
        use crate::ibeq::*;
        const N: usize = 37;
        assert!(<S5_2<()> as FixedSize>::SIZE == N && SIZE_S5_2 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S5_2::new(&b[..]);
        {
            let raw = field::<true>(&b[0..6], 5, 40);
            assert!(s.get_raw_f40() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 24) as i64) >> 24;
            assert!(s.get_f40() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_2::new(&mut c[..]); m.set_f40(v); }
            assert!(updated::<true>(&b[0..6], &c[0..6], 5, 40, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_2::new(&mut c[..]); m.set_raw_f40(r); }
            assert!(updated::<true>(&b[0..6], &c[0..6], 5, 40, r as u64) && others(&b, &c, 0, 6), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 39 && v as i64 <= (1u64 << 39) as i64 - 1 || 40 == 64 {
                let mut c = b;
                { let mut m = S5_2::new(&mut c[..]); m.set_f40(v); }
                assert!(S5_2::new(&c[..]).get_f40() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[5..13], 5, 56);
            assert!(s.get_raw_f56() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 8) as i64) >> 8;
            assert!(s.get_f56() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_2::new(&mut c[..]); m.set_f56(v); }
            assert!(updated::<true>(&b[5..13], &c[5..13], 5, 56, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_2::new(&mut c[..]); m.set_raw_f56(r); }
            assert!(updated::<true>(&b[5..13], &c[5..13], 5, 56, r as u64) && others(&b, &c, 5, 13), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 55 && v as i64 <= (1u64 << 55) as i64 - 1 || 56 == 64 {
                let mut c = b;
                { let mut m = S5_2::new(&mut c[..]); m.set_f56(v); }
                assert!(S5_2::new(&c[..]).get_f56() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[12..20], 5, 57);
            assert!(s.get_raw_f57() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 7) as i64) >> 7;
            assert!(s.get_f57() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_2::new(&mut c[..]); m.set_f57(v); }
            assert!(updated::<true>(&b[12..20], &c[12..20], 5, 57, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_2::new(&mut c[..]); m.set_raw_f57(r); }
            assert!(updated::<true>(&b[12..20], &c[12..20], 5, 57, r as u64) && others(&b, &c, 12, 20), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 56 && v as i64 <= (1u64 << 56) as i64 - 1 || 57 == 64 {
                let mut c = b;
                { let mut m = S5_2::new(&mut c[..]); m.set_f57(v); }
                assert!(S5_2::new(&c[..]).get_f57() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[20..29], 5, 63);
            assert!(s.get_raw_f63() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 1) as i64) >> 1;
            assert!(s.get_f63() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_2::new(&mut c[..]); m.set_f63(v); }
            assert!(updated::<true>(&b[20..29], &c[20..29], 5, 63, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_2::new(&mut c[..]); m.set_raw_f63(r); }
            assert!(updated::<true>(&b[20..29], &c[20..29], 5, 63, r as u64) && others(&b, &c, 20, 29), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 62 && v as i64 <= (1u64 << 62) as i64 - 1 || 63 == 64 {
                let mut c = b;
                { let mut m = S5_2::new(&mut c[..]); m.set_f63(v); }
                assert!(S5_2::new(&c[..]).get_f63() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[28..37], 5, 64);
            assert!(s.get_raw_f64() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 0) as i64) >> 0;
            assert!(s.get_f64() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_2::new(&mut c[..]); m.set_f64(v); }
            assert!(updated::<true>(&b[28..37], &c[28..37], 5, 64, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 28, 37), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_2::new(&mut c[..]); m.set_raw_f64(r); }
            assert!(updated::<true>(&b[28..37], &c[28..37], 5, 64, r as u64) && others(&b, &c, 28, 37), "the raw setter replaces the bits of the field only");
            {
                let mut c = b;
                { let mut m = S5_2::new(&mut c[..]); m.set_f64(v); }
                assert!(S5_2::new(&c[..]).get_f64() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o6_g0() {
        use crate::ibeq::*;
        const N: usize = 9;
        assert!(<S6_0<()> as FixedSize>::SIZE == N && SIZE_S6_0 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S6_0::new(&b[..]);
        {
            let raw = field::<true>(&b[0..1], 6, 1);
            assert!(s.get_raw_f1() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 63) as i64) >> 63;
            assert!(s.get_f1() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_0::new(&mut c[..]); m.set_f1(v); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 6, 1, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_0::new(&mut c[..]); m.set_raw_f1(r); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 6, 1, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 0 && v as i64 <= (1u64 << 0) as i64 - 1 || 1 == 64 {
                let mut c = b;
                { let mut m = S6_0::new(&mut c[..]); m.set_f1(v); }
                assert!(S6_0::new(&c[..]).get_f1() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[1..3], 6, 3);
            assert!(s.get_raw_f3() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 61) as i64) >> 61;
            assert!(s.get_f3() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_0::new(&mut c[..]); m.set_f3(v); }
            assert!(updated::<true>(&b[1..3], &c[1..3], 6, 3, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_0::new(&mut c[..]); m.set_raw_f3(r); }
            assert!(updated::<true>(&b[1..3], &c[1..3], 6, 3, r as u64) && others(&b, &c, 1, 3), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 2 && v as i64 <= (1u64 << 2) as i64 - 1 || 3 == 64 {
                let mut c = b;
                { let mut m = S6_0::new(&mut c[..]); m.set_f3(v); }
                assert!(S6_0::new(&c[..]).get_f3() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[2..4], 6, 7);
            assert!(s.get_raw_f7() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 57) as i64) >> 57;
            assert!(s.get_f7() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_0::new(&mut c[..]); m.set_f7(v); }
            assert!(updated::<true>(&b[2..4], &c[2..4], 6, 7, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_0::new(&mut c[..]); m.set_raw_f7(r); }
            assert!(updated::<true>(&b[2..4], &c[2..4], 6, 7, r as u64) && others(&b, &c, 2, 4), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 6 && v as i64 <= (1u64 << 6) as i64 - 1 || 7 == 64 {
                let mut c = b;
                { let mut m = S6_0::new(&mut c[..]); m.set_f7(v); }
                assert!(S6_0::new(&c[..]).get_f7() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[3..5], 6, 8);
            assert!(s.get_raw_f8() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 56) as i64) >> 56;
            assert!(s.get_f8() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_0::new(&mut c[..]); m.set_f8(v); }
            assert!(updated::<true>(&b[3..5], &c[3..5], 6, 8, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_0::new(&mut c[..]); m.set_raw_f8(r); }
            assert!(updated::<true>(&b[3..5], &c[3..5], 6, 8, r as u64) && others(&b, &c, 3, 5), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 7 && v as i64 <= (1u64 << 7) as i64 - 1 || 8 == 64 {
                let mut c = b;
                { let mut m = S6_0::new(&mut c[..]); m.set_f8(v); }
                assert!(S6_0::new(&c[..]).get_f8() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[4..6], 6, 9);
            assert!(s.get_raw_f9() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 55) as i64) >> 55;
            assert!(s.get_f9() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_0::new(&mut c[..]); m.set_f9(v); }
            assert!(updated::<true>(&b[4..6], &c[4..6], 6, 9, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_0::new(&mut c[..]); m.set_raw_f9(r); }
            assert!(updated::<true>(&b[4..6], &c[4..6], 6, 9, r as u64) && others(&b, &c, 4, 6), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 8 && v as i64 <= (1u64 << 8) as i64 - 1 || 9 == 64 {
                let mut c = b;
                { let mut m = S6_0::new(&mut c[..]); m.set_f9(v); }
                assert!(S6_0::new(&c[..]).get_f9() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[6..9], 6, 16);
            assert!(s.get_raw_f16() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 48) as i64) >> 48;
            assert!(s.get_f16() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_0::new(&mut c[..]); m.set_f16(v); }
            assert!(updated::<true>(&b[6..9], &c[6..9], 6, 16, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 9), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_0::new(&mut c[..]); m.set_raw_f16(r); }
            assert!(updated::<true>(&b[6..9], &c[6..9], 6, 16, r as u64) && others(&b, &c, 6, 9), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 15 && v as i64 <= (1u64 << 15) as i64 - 1 || 16 == 64 {
                let mut c = b;
                { let mut m = S6_0::new(&mut c[..]); m.set_f16(v); }
                assert!(S6_0::new(&c[..]).get_f16() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o6_g1() {
        use crate::ibeq::*;
        const N: usize = 19;
        assert!(<S6_1<()> as FixedSize>::SIZE == N && SIZE_S6_1 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S6_1::new(&b[..]);
        {
            let raw = field::<true>(&b[0..3], 6, 17);
            assert!(s.get_raw_f17() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 47) as i64) >> 47;
            assert!(s.get_f17() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_1::new(&mut c[..]); m.set_f17(v); }
            assert!(updated::<true>(&b[0..3], &c[0..3], 6, 17, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_1::new(&mut c[..]); m.set_raw_f17(r); }
            assert!(updated::<true>(&b[0..3], &c[0..3], 6, 17, r as u64) && others(&b, &c, 0, 3), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 16 && v as i64 <= (1u64 << 16) as i64 - 1 || 17 == 64 {
                let mut c = b;
                { let mut m = S6_1::new(&mut c[..]); m.set_f17(v); }
                assert!(S6_1::new(&c[..]).get_f17() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[3..7], 6, 24);
            assert!(s.get_raw_f24() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 40) as i64) >> 40;
            assert!(s.get_f24() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_1::new(&mut c[..]); m.set_f24(v); }
            assert!(updated::<true>(&b[3..7], &c[3..7], 6, 24, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_1::new(&mut c[..]); m.set_raw_f24(r); }
            assert!(updated::<true>(&b[3..7], &c[3..7], 6, 24, r as u64) && others(&b, &c, 3, 7), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 23 && v as i64 <= (1u64 << 23) as i64 - 1 || 24 == 64 {
                let mut c = b;
                { let mut m = S6_1::new(&mut c[..]); m.set_f24(v); }
                assert!(S6_1::new(&c[..]).get_f24() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[6..10], 6, 25);
            assert!(s.get_raw_f25() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 39) as i64) >> 39;
            assert!(s.get_f25() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_1::new(&mut c[..]); m.set_f25(v); }
            assert!(updated::<true>(&b[6..10], &c[6..10], 6, 25, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_1::new(&mut c[..]); m.set_raw_f25(r); }
            assert!(updated::<true>(&b[6..10], &c[6..10], 6, 25, r as u64) && others(&b, &c, 6, 10), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 24 && v as i64 <= (1u64 << 24) as i64 - 1 || 25 == 64 {
                let mut c = b;
                { let mut m = S6_1::new(&mut c[..]); m.set_f25(v); }
                assert!(S6_1::new(&c[..]).get_f25() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[10..15], 6, 32);
            assert!(s.get_raw_f32() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 32) as i64) >> 32;
            assert!(s.get_f32() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_1::new(&mut c[..]); m.set_f32(v); }
            assert!(updated::<true>(&b[10..15], &c[10..15], 6, 32, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 15), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_1::new(&mut c[..]); m.set_raw_f32(r); }
            assert!(updated::<true>(&b[10..15], &c[10..15], 6, 32, r as u64) && others(&b, &c, 10, 15), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 31 && v as i64 <= (1u64 << 31) as i64 - 1 || 32 == 64 {
                let mut c = b;
                { let mut m = S6_1::new(&mut c[..]); m.set_f32(v); }
                assert!(S6_1::new(&c[..]).get_f32() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[14..19], 6, 33);
            assert!(s.get_raw_f33() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 31) as i64) >> 31;
            assert!(s.get_f33() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_1::new(&mut c[..]); m.set_f33(v); }
            assert!(updated::<true>(&b[14..19], &c[14..19], 6, 33, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 14, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_1::new(&mut c[..]); m.set_raw_f33(r); }
            assert!(updated::<true>(&b[14..19], &c[14..19], 6, 33, r as u64) && others(&b, &c, 14, 19), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 32 && v as i64 <= (1u64 << 32) as i64 - 1 || 33 == 64 {
                let mut c = b;
                { let mut m = S6_1::new(&mut c[..]); m.set_f33(v); }
                assert!(S6_1::new(&c[..]).get_f33() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o6_g2() {
        use crate::ibeq::*;
        const N: usize = 37;
        assert!(<S6_2<()> as FixedSize>::SIZE == N && SIZE_S6_2 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S6_2::new(&b[..]);
        {
            let raw = field::<true>(&b[0..6], 6, 40);
            assert!(s.get_raw_f40() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 24) as i64) >> 24;
            assert!(s.get_f40() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_2::new(&mut c[..]); m.set_f40(v); }
            assert!(updated::<true>(&b[0..6], &c[0..6], 6, 40, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_2::new(&mut c[..]); m.set_raw_f40(r); }
            assert!(updated::<true>(&b[0..6], &c[0..6], 6, 40, r as u64) && others(&b, &c, 0, 6), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 39 && v as i64 <= (1u64 << 39) as i64 - 1 || 40 == 64 {
                let mut c = b;
                { let mut m = S6_2::new(&mut c[..]); m.set_f40(v); }
                assert!(S6_2::new(&c[..]).get_f40() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[5..13], 6, 56);
            assert!(s.get_raw_f56() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 8) as i64) >> 8;
            assert!(s.get_f56() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_2::new(&mut c[..]); m.set_f56(v); }
            assert!(updated::<true>(&b[5..13], &c[5..13], 6, 56, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_2::new(&mut c[..]); m.set_raw_f56(r); }
            assert!(updated::<true>(&b[5..13], &c[5..13], 6, 56, r as u64) && others(&b, &c, 5, 13), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 55 && v as i64 <= (1u64 << 55) as i64 - 1 || 56 == 64 {
                let mut c = b;
                { let mut m = S6_2::new(&mut c[..]); m.set_f56(v); }
                assert!(S6_2::new(&c[..]).get_f56() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[12..20], 6, 57);
            assert!(s.get_raw_f57() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 7) as i64) >> 7;
            assert!(s.get_f57() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_2::new(&mut c[..]); m.set_f57(v); }
            assert!(updated::<true>(&b[12..20], &c[12..20], 6, 57, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_2::new(&mut c[..]); m.set_raw_f57(r); }
            assert!(updated::<true>(&b[12..20], &c[12..20], 6, 57, r as u64) && others(&b, &c, 12, 20), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 56 && v as i64 <= (1u64 << 56) as i64 - 1 || 57 == 64 {
                let mut c = b;
                { let mut m = S6_2::new(&mut c[..]); m.set_f57(v); }
                assert!(S6_2::new(&c[..]).get_f57() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[20..29], 6, 63);
            assert!(s.get_raw_f63() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 1) as i64) >> 1;
            assert!(s.get_f63() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_2::new(&mut c[..]); m.set_f63(v); }
            assert!(updated::<true>(&b[20..29], &c[20..29], 6, 63, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_2::new(&mut c[..]); m.set_raw_f63(r); }
            assert!(updated::<true>(&b[20..29], &c[20..29], 6, 63, r as u64) && others(&b, &c, 20, 29), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 62 && v as i64 <= (1u64 << 62) as i64 - 1 || 63 == 64 {
                let mut c = b;
                { let mut m = S6_2::new(&mut c[..]); m.set_f63(v); }
                assert!(S6_2::new(&c[..]).get_f63() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[28..37], 6, 64);
            assert!(s.get_raw_f64() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 0) as i64) >> 0;
            assert!(s.get_f64() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_2::new(&mut c[..]); m.set_f64(v); }
            assert!(updated::<true>(&b[28..37], &c[28..37], 6, 64, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 28, 37), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_2::new(&mut c[..]); m.set_raw_f64(r); }
            assert!(updated::<true>(&b[28..37], &c[28..37], 6, 64, r as u64) && others(&b, &c, 28, 37), "the raw setter replaces the bits of the field only");
            {
                let mut c = b;
                { let mut m = S6_2::new(&mut c[..]); m.set_f64(v); }
                assert!(S6_2::new(&c[..]).get_f64() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o7_g0() {
        use crate::ibeq::*;
        const N: usize = 9;
        assert!(<S7_0<()> as FixedSize>::SIZE == N && SIZE_S7_0 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S7_0::new(&b[..]);
        {
            let raw = field::<true>(&b[0..1], 7, 1);
            assert!(s.get_raw_f1() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 63) as i64) >> 63;
            assert!(s.get_f1() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_0::new(&mut c[..]); m.set_f1(v); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 7, 1, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_0::new(&mut c[..]); m.set_raw_f1(r); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 7, 1, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 0 && v as i64 <= (1u64 << 0) as i64 - 1 || 1 == 64 {
                let mut c = b;
                { let mut m = S7_0::new(&mut c[..]); m.set_f1(v); }
                assert!(S7_0::new(&c[..]).get_f1() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[1..3], 7, 3);
            assert!(s.get_raw_f3() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 61) as i64) >> 61;
            assert!(s.get_f3() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_0::new(&mut c[..]); m.set_f3(v); }
            assert!(updated::<true>(&b[1..3], &c[1..3], 7, 3, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_0::new(&mut c[..]); m.set_raw_f3(r); }
            assert!(updated::<true>(&b[1..3], &c[1..3], 7, 3, r as u64) && others(&b, &c, 1, 3), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 2 && v as i64 <= (1u64 << 2) as i64 - 1 || 3 == 64 {
                let mut c = b;
                { let mut m = S7_0::new(&mut c[..]); m.set_f3(v); }
                assert!(S7_0::new(&c[..]).get_f3() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[2..4], 7, 7);
            assert!(s.get_raw_f7() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 57) as i64) >> 57;
            assert!(s.get_f7() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_0::new(&mut c[..]); m.set_f7(v); }
            assert!(updated::<true>(&b[2..4], &c[2..4], 7, 7, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_0::new(&mut c[..]); m.set_raw_f7(r); }
            assert!(updated::<true>(&b[2..4], &c[2..4], 7, 7, r as u64) && others(&b, &c, 2, 4), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 6 && v as i64 <= (1u64 << 6) as i64 - 1 || 7 == 64 {
                let mut c = b;
                { let mut m = S7_0::new(&mut c[..]); m.set_f7(v); }
                assert!(S7_0::new(&c[..]).get_f7() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[3..5], 7, 8);
            assert!(s.get_raw_f8() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 56) as i64) >> 56;
            assert!(s.get_f8() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_0::new(&mut c[..]); m.set_f8(v); }
            assert!(updated::<true>(&b[3..5], &c[3..5], 7, 8, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_0::new(&mut c[..]); m.set_raw_f8(r); }
            assert!(updated::<true>(&b[3..5], &c[3..5], 7, 8, r as u64) && others(&b, &c, 3, 5), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 7 && v as i64 <= (1u64 << 7) as i64 - 1 || 8 == 64 {
                let mut c = b;
                { let mut m = S7_0::new(&mut c[..]); m.set_f8(v); }
                assert!(S7_0::new(&c[..]).get_f8() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[4..6], 7, 9);
            assert!(s.get_raw_f9() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 55) as i64) >> 55;
            assert!(s.get_f9() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_0::new(&mut c[..]); m.set_f9(v); }
            assert!(updated::<true>(&b[4..6], &c[4..6], 7, 9, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_0::new(&mut c[..]); m.set_raw_f9(r); }
            assert!(updated::<true>(&b[4..6], &c[4..6], 7, 9, r as u64) && others(&b, &c, 4, 6), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 8 && v as i64 <= (1u64 << 8) as i64 - 1 || 9 == 64 {
                let mut c = b;
                { let mut m = S7_0::new(&mut c[..]); m.set_f9(v); }
                assert!(S7_0::new(&c[..]).get_f9() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[6..9], 7, 16);
            assert!(s.get_raw_f16() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 48) as i64) >> 48;
            assert!(s.get_f16() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_0::new(&mut c[..]); m.set_f16(v); }
            assert!(updated::<true>(&b[6..9], &c[6..9], 7, 16, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 9), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_0::new(&mut c[..]); m.set_raw_f16(r); }
            assert!(updated::<true>(&b[6..9], &c[6..9], 7, 16, r as u64) && others(&b, &c, 6, 9), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 15 && v as i64 <= (1u64 << 15) as i64 - 1 || 16 == 64 {
                let mut c = b;
                { let mut m = S7_0::new(&mut c[..]); m.set_f16(v); }
                assert!(S7_0::new(&c[..]).get_f16() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o7_g1() {
        use crate::ibeq::*;
        const N: usize = 19;
        assert!(<S7_1<()> as FixedSize>::SIZE == N && SIZE_S7_1 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S7_1::new(&b[..]);
        {
            let raw = field::<true>(&b[0..3], 7, 17);
            assert!(s.get_raw_f17() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 47) as i64) >> 47;
            assert!(s.get_f17() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_1::new(&mut c[..]); m.set_f17(v); }
            assert!(updated::<true>(&b[0..3], &c[0..3], 7, 17, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_1::new(&mut c[..]); m.set_raw_f17(r); }
            assert!(updated::<true>(&b[0..3], &c[0..3], 7, 17, r as u64) && others(&b, &c, 0, 3), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 16 && v as i64 <= (1u64 << 16) as i64 - 1 || 17 == 64 {
                let mut c = b;
                { let mut m = S7_1::new(&mut c[..]); m.set_f17(v); }
                assert!(S7_1::new(&c[..]).get_f17() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[3..7], 7, 24);
            assert!(s.get_raw_f24() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 40) as i64) >> 40;
            assert!(s.get_f24() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_1::new(&mut c[..]); m.set_f24(v); }
            assert!(updated::<true>(&b[3..7], &c[3..7], 7, 24, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_1::new(&mut c[..]); m.set_raw_f24(r); }
            assert!(updated::<true>(&b[3..7], &c[3..7], 7, 24, r as u64) && others(&b, &c, 3, 7), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 23 && v as i64 <= (1u64 << 23) as i64 - 1 || 24 == 64 {
                let mut c = b;
                { let mut m = S7_1::new(&mut c[..]); m.set_f24(v); }
                assert!(S7_1::new(&c[..]).get_f24() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[6..10], 7, 25);
            assert!(s.get_raw_f25() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 39) as i64) >> 39;
            assert!(s.get_f25() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_1::new(&mut c[..]); m.set_f25(v); }
            assert!(updated::<true>(&b[6..10], &c[6..10], 7, 25, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_1::new(&mut c[..]); m.set_raw_f25(r); }
            assert!(updated::<true>(&b[6..10], &c[6..10], 7, 25, r as u64) && others(&b, &c, 6, 10), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 24 && v as i64 <= (1u64 << 24) as i64 - 1 || 25 == 64 {
                let mut c = b;
                { let mut m = S7_1::new(&mut c[..]); m.set_f25(v); }
                assert!(S7_1::new(&c[..]).get_f25() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[10..15], 7, 32);
            assert!(s.get_raw_f32() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 32) as i64) >> 32;
            assert!(s.get_f32() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_1::new(&mut c[..]); m.set_f32(v); }
            assert!(updated::<true>(&b[10..15], &c[10..15], 7, 32, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 15), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_1::new(&mut c[..]); m.set_raw_f32(r); }
            assert!(updated::<true>(&b[10..15], &c[10..15], 7, 32, r as u64) && others(&b, &c, 10, 15), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 31 && v as i64 <= (1u64 << 31) as i64 - 1 || 32 == 64 {
                let mut c = b;
                { let mut m = S7_1::new(&mut c[..]); m.set_f32(v); }
                assert!(S7_1::new(&c[..]).get_f32() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[14..19], 7, 33);
            assert!(s.get_raw_f33() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 31) as i64) >> 31;
            assert!(s.get_f33() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_1::new(&mut c[..]); m.set_f33(v); }
            assert!(updated::<true>(&b[14..19], &c[14..19], 7, 33, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 14, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_1::new(&mut c[..]); m.set_raw_f33(r); }
            assert!(updated::<true>(&b[14..19], &c[14..19], 7, 33, r as u64) && others(&b, &c, 14, 19), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 32 && v as i64 <= (1u64 << 32) as i64 - 1 || 33 == 64 {
                let mut c = b;
                { let mut m = S7_1::new(&mut c[..]); m.set_f33(v); }
                assert!(S7_1::new(&c[..]).get_f33() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o7_g2() {
        use crate::ibeq::*;
        const N: usize = 37;
        assert!(<S7_2<()> as FixedSize>::SIZE == N && SIZE_S7_2 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S7_2::new(&b[..]);
        {
            let raw = field::<true>(&b[0..6], 7, 40);
            assert!(s.get_raw_f40() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 24) as i64) >> 24;
            assert!(s.get_f40() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_2::new(&mut c[..]); m.set_f40(v); }
            assert!(updated::<true>(&b[0..6], &c[0..6], 7, 40, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_2::new(&mut c[..]); m.set_raw_f40(r); }
            assert!(updated::<true>(&b[0..6], &c[0..6], 7, 40, r as u64) && others(&b, &c, 0, 6), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 39 && v as i64 <= (1u64 << 39) as i64 - 1 || 40 == 64 {
                let mut c = b;
                { let mut m = S7_2::new(&mut c[..]); m.set_f40(v); }
                assert!(S7_2::new(&c[..]).get_f40() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[5..13], 7, 56);
            assert!(s.get_raw_f56() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 8) as i64) >> 8;
            assert!(s.get_f56() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_2::new(&mut c[..]); m.set_f56(v); }
            assert!(updated::<true>(&b[5..13], &c[5..13], 7, 56, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_2::new(&mut c[..]); m.set_raw_f56(r); }
            assert!(updated::<true>(&b[5..13], &c[5..13], 7, 56, r as u64) && others(&b, &c, 5, 13), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 55 && v as i64 <= (1u64 << 55) as i64 - 1 || 56 == 64 {
                let mut c = b;
                { let mut m = S7_2::new(&mut c[..]); m.set_f56(v); }
                assert!(S7_2::new(&c[..]).get_f56() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[12..20], 7, 57);
            assert!(s.get_raw_f57() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 7) as i64) >> 7;
            assert!(s.get_f57() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_2::new(&mut c[..]); m.set_f57(v); }
            assert!(updated::<true>(&b[12..20], &c[12..20], 7, 57, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_2::new(&mut c[..]); m.set_raw_f57(r); }
            assert!(updated::<true>(&b[12..20], &c[12..20], 7, 57, r as u64) && others(&b, &c, 12, 20), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 56 && v as i64 <= (1u64 << 56) as i64 - 1 || 57 == 64 {
                let mut c = b;
                { let mut m = S7_2::new(&mut c[..]); m.set_f57(v); }
                assert!(S7_2::new(&c[..]).get_f57() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[20..29], 7, 63);
            assert!(s.get_raw_f63() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 1) as i64) >> 1;
            assert!(s.get_f63() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_2::new(&mut c[..]); m.set_f63(v); }
            assert!(updated::<true>(&b[20..29], &c[20..29], 7, 63, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_2::new(&mut c[..]); m.set_raw_f63(r); }
            assert!(updated::<true>(&b[20..29], &c[20..29], 7, 63, r as u64) && others(&b, &c, 20, 29), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 62 && v as i64 <= (1u64 << 62) as i64 - 1 || 63 == 64 {
                let mut c = b;
                { let mut m = S7_2::new(&mut c[..]); m.set_f63(v); }
                assert!(S7_2::new(&c[..]).get_f63() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[28..37], 7, 64);
            assert!(s.get_raw_f64() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 0) as i64) >> 0;
            assert!(s.get_f64() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_2::new(&mut c[..]); m.set_f64(v); }
            assert!(updated::<true>(&b[28..37], &c[28..37], 7, 64, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 28, 37), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_2::new(&mut c[..]); m.set_raw_f64(r); }
            assert!(updated::<true>(&b[28..37], &c[28..37], 7, 64, r as u64) && others(&b, &c, 28, 37), "the raw setter replaces the bits of the field only");
            {
                let mut c = b;
                { let mut m = S7_2::new(&mut c[..]); m.set_f64(v); }
                assert!(S7_2::new(&c[..]).get_f64() == v, "a value in the range of the field is given back");
            }
        }
    }
}
#[cfg(feature = "ulet")]
mod ulet {
    use crate::spec::*;
    use bp3d_proto::util::FixedSize;
    #[kani::proof]
    fn o0_g0() {
        use crate::ulet::*;
        const N: usize = 12;
        assert!(<S0_0<()> as FixedSize>::SIZE == N && SIZE_S0_0 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S0_0::new(&b[..]);
        {
            let raw = field::<false>(&b[0..1], 0, 2);
            assert!(s.get_raw_f2() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f2() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S0_0::new(&mut c[..]); m.set_f2(v); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 0, 2, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_0::new(&mut c[..]); m.set_raw_f2(r); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 0, 2, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[1..2], 0, 4);
            assert!(s.get_raw_f4() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f4() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S0_0::new(&mut c[..]); m.set_f4(v); }
            assert!(updated::<false>(&b[1..2], &c[1..2], 0, 4, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_0::new(&mut c[..]); m.set_raw_f4(r); }
            assert!(updated::<false>(&b[1..2], &c[1..2], 0, 4, r as u64) && others(&b, &c, 1, 2), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[2..3], 0, 5);
            assert!(s.get_raw_f5() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f5() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S0_0::new(&mut c[..]); m.set_f5(v); }
            assert!(updated::<false>(&b[2..3], &c[2..3], 0, 5, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_0::new(&mut c[..]); m.set_raw_f5(r); }
            assert!(updated::<false>(&b[2..3], &c[2..3], 0, 5, r as u64) && others(&b, &c, 2, 3), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[3..4], 0, 6);
            assert!(s.get_raw_f6() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f6() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S0_0::new(&mut c[..]); m.set_f6(v); }
            assert!(updated::<false>(&b[3..4], &c[3..4], 0, 6, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_0::new(&mut c[..]); m.set_raw_f6(r); }
            assert!(updated::<false>(&b[3..4], &c[3..4], 0, 6, r as u64) && others(&b, &c, 3, 4), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[4..6], 0, 10);
            assert!(s.get_raw_f10() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f10() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S0_0::new(&mut c[..]); m.set_f10(v); }
            assert!(updated::<false>(&b[4..6], &c[4..6], 0, 10, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_0::new(&mut c[..]); m.set_raw_f10(r); }
            assert!(updated::<false>(&b[4..6], &c[4..6], 0, 10, r as u64) && others(&b, &c, 4, 6), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[6..8], 0, 11);
            assert!(s.get_raw_f11() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f11() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S0_0::new(&mut c[..]); m.set_f11(v); }
            assert!(updated::<false>(&b[6..8], &c[6..8], 0, 11, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_0::new(&mut c[..]); m.set_raw_f11(r); }
            assert!(updated::<false>(&b[6..8], &c[6..8], 0, 11, r as u64) && others(&b, &c, 6, 8), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[8..10], 0, 12);
            assert!(s.get_raw_f12() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f12() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S0_0::new(&mut c[..]); m.set_f12(v); }
            assert!(updated::<false>(&b[8..10], &c[8..10], 0, 12, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 8, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_0::new(&mut c[..]); m.set_raw_f12(r); }
            assert!(updated::<false>(&b[8..10], &c[8..10], 0, 12, r as u64) && others(&b, &c, 8, 10), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[10..12], 0, 13);
            assert!(s.get_raw_f13() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f13() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S0_0::new(&mut c[..]); m.set_f13(v); }
            assert!(updated::<false>(&b[10..12], &c[10..12], 0, 13, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 12), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_0::new(&mut c[..]); m.set_raw_f13(r); }
            assert!(updated::<false>(&b[10..12], &c[10..12], 0, 13, r as u64) && others(&b, &c, 10, 12), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o0_g1() {
        use crate::ulet::*;
        const N: usize = 22;
        assert!(<S0_1<()> as FixedSize>::SIZE == N && SIZE_S0_1 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S0_1::new(&b[..]);
        {
            let raw = field::<false>(&b[0..2], 0, 14);
            assert!(s.get_raw_f14() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f14() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S0_1::new(&mut c[..]); m.set_f14(v); }
            assert!(updated::<false>(&b[0..2], &c[0..2], 0, 14, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_1::new(&mut c[..]); m.set_raw_f14(r); }
            assert!(updated::<false>(&b[0..2], &c[0..2], 0, 14, r as u64) && others(&b, &c, 0, 2), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[2..4], 0, 15);
            assert!(s.get_raw_f15() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f15() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S0_1::new(&mut c[..]); m.set_f15(v); }
            assert!(updated::<false>(&b[2..4], &c[2..4], 0, 15, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_1::new(&mut c[..]); m.set_raw_f15(r); }
            assert!(updated::<false>(&b[2..4], &c[2..4], 0, 15, r as u64) && others(&b, &c, 2, 4), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[4..7], 0, 18);
            assert!(s.get_raw_f18() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f18() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S0_1::new(&mut c[..]); m.set_f18(v); }
            assert!(updated::<false>(&b[4..7], &c[4..7], 0, 18, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_1::new(&mut c[..]); m.set_raw_f18(r); }
            assert!(updated::<false>(&b[4..7], &c[4..7], 0, 18, r as u64) && others(&b, &c, 4, 7), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[7..10], 0, 19);
            assert!(s.get_raw_f19() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f19() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S0_1::new(&mut c[..]); m.set_f19(v); }
            assert!(updated::<false>(&b[7..10], &c[7..10], 0, 19, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_1::new(&mut c[..]); m.set_raw_f19(r); }
            assert!(updated::<false>(&b[7..10], &c[7..10], 0, 19, r as u64) && others(&b, &c, 7, 10), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[10..13], 0, 20);
            assert!(s.get_raw_f20() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f20() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S0_1::new(&mut c[..]); m.set_f20(v); }
            assert!(updated::<false>(&b[10..13], &c[10..13], 0, 20, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_1::new(&mut c[..]); m.set_raw_f20(r); }
            assert!(updated::<false>(&b[10..13], &c[10..13], 0, 20, r as u64) && others(&b, &c, 10, 13), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[13..16], 0, 21);
            assert!(s.get_raw_f21() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f21() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S0_1::new(&mut c[..]); m.set_f21(v); }
            assert!(updated::<false>(&b[13..16], &c[13..16], 0, 21, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 13, 16), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_1::new(&mut c[..]); m.set_raw_f21(r); }
            assert!(updated::<false>(&b[13..16], &c[13..16], 0, 21, r as u64) && others(&b, &c, 13, 16), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[16..19], 0, 22);
            assert!(s.get_raw_f22() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f22() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S0_1::new(&mut c[..]); m.set_f22(v); }
            assert!(updated::<false>(&b[16..19], &c[16..19], 0, 22, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_1::new(&mut c[..]); m.set_raw_f22(r); }
            assert!(updated::<false>(&b[16..19], &c[16..19], 0, 22, r as u64) && others(&b, &c, 16, 19), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[19..22], 0, 23);
            assert!(s.get_raw_f23() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f23() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S0_1::new(&mut c[..]); m.set_f23(v); }
            assert!(updated::<false>(&b[19..22], &c[19..22], 0, 23, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 19, 22), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_1::new(&mut c[..]); m.set_raw_f23(r); }
            assert!(updated::<false>(&b[19..22], &c[19..22], 0, 23, r as u64) && others(&b, &c, 19, 22), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o0_g2() {
        use crate::ulet::*;
        const N: usize = 34;
        assert!(<S0_2<()> as FixedSize>::SIZE == N && SIZE_S0_2 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S0_2::new(&b[..]);
        {
            let raw = field::<false>(&b[0..4], 0, 26);
            assert!(s.get_raw_f26() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f26() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S0_2::new(&mut c[..]); m.set_f26(v); }
            assert!(updated::<false>(&b[0..4], &c[0..4], 0, 26, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_2::new(&mut c[..]); m.set_raw_f26(r); }
            assert!(updated::<false>(&b[0..4], &c[0..4], 0, 26, r as u64) && others(&b, &c, 0, 4), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[4..8], 0, 27);
            assert!(s.get_raw_f27() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f27() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S0_2::new(&mut c[..]); m.set_f27(v); }
            assert!(updated::<false>(&b[4..8], &c[4..8], 0, 27, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_2::new(&mut c[..]); m.set_raw_f27(r); }
            assert!(updated::<false>(&b[4..8], &c[4..8], 0, 27, r as u64) && others(&b, &c, 4, 8), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[8..12], 0, 28);
            assert!(s.get_raw_f28() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f28() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S0_2::new(&mut c[..]); m.set_f28(v); }
            assert!(updated::<false>(&b[8..12], &c[8..12], 0, 28, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 8, 12), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_2::new(&mut c[..]); m.set_raw_f28(r); }
            assert!(updated::<false>(&b[8..12], &c[8..12], 0, 28, r as u64) && others(&b, &c, 8, 12), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[12..16], 0, 29);
            assert!(s.get_raw_f29() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f29() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S0_2::new(&mut c[..]); m.set_f29(v); }
            assert!(updated::<false>(&b[12..16], &c[12..16], 0, 29, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 16), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_2::new(&mut c[..]); m.set_raw_f29(r); }
            assert!(updated::<false>(&b[12..16], &c[12..16], 0, 29, r as u64) && others(&b, &c, 12, 16), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[16..20], 0, 30);
            assert!(s.get_raw_f30() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f30() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S0_2::new(&mut c[..]); m.set_f30(v); }
            assert!(updated::<false>(&b[16..20], &c[16..20], 0, 30, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_2::new(&mut c[..]); m.set_raw_f30(r); }
            assert!(updated::<false>(&b[16..20], &c[16..20], 0, 30, r as u64) && others(&b, &c, 16, 20), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[20..24], 0, 31);
            assert!(s.get_raw_f31() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f31() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S0_2::new(&mut c[..]); m.set_f31(v); }
            assert!(updated::<false>(&b[20..24], &c[20..24], 0, 31, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 24), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_2::new(&mut c[..]); m.set_raw_f31(r); }
            assert!(updated::<false>(&b[20..24], &c[20..24], 0, 31, r as u64) && others(&b, &c, 20, 24), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[24..29], 0, 34);
            assert!(s.get_raw_f34() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f34() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S0_2::new(&mut c[..]); m.set_f34(v); }
            assert!(updated::<false>(&b[24..29], &c[24..29], 0, 34, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 24, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_2::new(&mut c[..]); m.set_raw_f34(r); }
            assert!(updated::<false>(&b[24..29], &c[24..29], 0, 34, r as u64) && others(&b, &c, 24, 29), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[29..34], 0, 35);
            assert!(s.get_raw_f35() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f35() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S0_2::new(&mut c[..]); m.set_f35(v); }
            assert!(updated::<false>(&b[29..34], &c[29..34], 0, 35, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 29, 34), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_2::new(&mut c[..]); m.set_raw_f35(r); }
            assert!(updated::<false>(&b[29..34], &c[29..34], 0, 35, r as u64) && others(&b, &c, 29, 34), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o0_g3() {
        use crate::ulet::*;
        const N: usize = 44;
        assert!(<S0_3<()> as FixedSize>::SIZE == N && SIZE_S0_3 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S0_3::new(&b[..]);
        {
            let raw = field::<false>(&b[0..5], 0, 36);
            assert!(s.get_raw_f36() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f36() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S0_3::new(&mut c[..]); m.set_f36(v); }
            assert!(updated::<false>(&b[0..5], &c[0..5], 0, 36, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_3::new(&mut c[..]); m.set_raw_f36(r); }
            assert!(updated::<false>(&b[0..5], &c[0..5], 0, 36, r as u64) && others(&b, &c, 0, 5), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[5..10], 0, 37);
            assert!(s.get_raw_f37() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f37() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S0_3::new(&mut c[..]); m.set_f37(v); }
            assert!(updated::<false>(&b[5..10], &c[5..10], 0, 37, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_3::new(&mut c[..]); m.set_raw_f37(r); }
            assert!(updated::<false>(&b[5..10], &c[5..10], 0, 37, r as u64) && others(&b, &c, 5, 10), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[10..15], 0, 38);
            assert!(s.get_raw_f38() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f38() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S0_3::new(&mut c[..]); m.set_f38(v); }
            assert!(updated::<false>(&b[10..15], &c[10..15], 0, 38, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 15), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_3::new(&mut c[..]); m.set_raw_f38(r); }
            assert!(updated::<false>(&b[10..15], &c[10..15], 0, 38, r as u64) && others(&b, &c, 10, 15), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[15..20], 0, 39);
            assert!(s.get_raw_f39() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f39() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S0_3::new(&mut c[..]); m.set_f39(v); }
            assert!(updated::<false>(&b[15..20], &c[15..20], 0, 39, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 15, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_3::new(&mut c[..]); m.set_raw_f39(r); }
            assert!(updated::<false>(&b[15..20], &c[15..20], 0, 39, r as u64) && others(&b, &c, 15, 20), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[20..26], 0, 41);
            assert!(s.get_raw_f41() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f41() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S0_3::new(&mut c[..]); m.set_f41(v); }
            assert!(updated::<false>(&b[20..26], &c[20..26], 0, 41, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 26), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_3::new(&mut c[..]); m.set_raw_f41(r); }
            assert!(updated::<false>(&b[20..26], &c[20..26], 0, 41, r as u64) && others(&b, &c, 20, 26), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[26..32], 0, 42);
            assert!(s.get_raw_f42() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f42() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S0_3::new(&mut c[..]); m.set_f42(v); }
            assert!(updated::<false>(&b[26..32], &c[26..32], 0, 42, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 26, 32), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_3::new(&mut c[..]); m.set_raw_f42(r); }
            assert!(updated::<false>(&b[26..32], &c[26..32], 0, 42, r as u64) && others(&b, &c, 26, 32), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[32..38], 0, 43);
            assert!(s.get_raw_f43() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f43() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S0_3::new(&mut c[..]); m.set_f43(v); }
            assert!(updated::<false>(&b[32..38], &c[32..38], 0, 43, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 32, 38), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_3::new(&mut c[..]); m.set_raw_f43(r); }
            assert!(updated::<false>(&b[32..38], &c[32..38], 0, 43, r as u64) && others(&b, &c, 32, 38), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[38..44], 0, 44);
            assert!(s.get_raw_f44() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f44() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S0_3::new(&mut c[..]); m.set_f44(v); }
            assert!(updated::<false>(&b[38..44], &c[38..44], 0, 44, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 38, 44), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_3::new(&mut c[..]); m.set_raw_f44(r); }
            assert!(updated::<false>(&b[38..44], &c[38..44], 0, 44, r as u64) && others(&b, &c, 38, 44), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o0_g4() {
        use crate::ulet::*;
        const N: usize = 52;
        assert!(<S0_4<()> as FixedSize>::SIZE == N && SIZE_S0_4 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S0_4::new(&b[..]);
        {
            let raw = field::<false>(&b[0..6], 0, 45);
            assert!(s.get_raw_f45() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f45() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S0_4::new(&mut c[..]); m.set_f45(v); }
            assert!(updated::<false>(&b[0..6], &c[0..6], 0, 45, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_4::new(&mut c[..]); m.set_raw_f45(r); }
            assert!(updated::<false>(&b[0..6], &c[0..6], 0, 45, r as u64) && others(&b, &c, 0, 6), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[6..12], 0, 46);
            assert!(s.get_raw_f46() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f46() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S0_4::new(&mut c[..]); m.set_f46(v); }
            assert!(updated::<false>(&b[6..12], &c[6..12], 0, 46, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 12), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_4::new(&mut c[..]); m.set_raw_f46(r); }
            assert!(updated::<false>(&b[6..12], &c[6..12], 0, 46, r as u64) && others(&b, &c, 6, 12), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[12..18], 0, 47);
            assert!(s.get_raw_f47() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f47() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S0_4::new(&mut c[..]); m.set_f47(v); }
            assert!(updated::<false>(&b[12..18], &c[12..18], 0, 47, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 18), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_4::new(&mut c[..]); m.set_raw_f47(r); }
            assert!(updated::<false>(&b[12..18], &c[12..18], 0, 47, r as u64) && others(&b, &c, 12, 18), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[18..24], 0, 48);
            assert!(s.get_raw_f48() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f48() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S0_4::new(&mut c[..]); m.set_f48(v); }
            assert!(updated::<false>(&b[18..24], &c[18..24], 0, 48, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 18, 24), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_4::new(&mut c[..]); m.set_raw_f48(r); }
            assert!(updated::<false>(&b[18..24], &c[18..24], 0, 48, r as u64) && others(&b, &c, 18, 24), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[24..31], 0, 49);
            assert!(s.get_raw_f49() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f49() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S0_4::new(&mut c[..]); m.set_f49(v); }
            assert!(updated::<false>(&b[24..31], &c[24..31], 0, 49, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 24, 31), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_4::new(&mut c[..]); m.set_raw_f49(r); }
            assert!(updated::<false>(&b[24..31], &c[24..31], 0, 49, r as u64) && others(&b, &c, 24, 31), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[31..38], 0, 50);
            assert!(s.get_raw_f50() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f50() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S0_4::new(&mut c[..]); m.set_f50(v); }
            assert!(updated::<false>(&b[31..38], &c[31..38], 0, 50, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 31, 38), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_4::new(&mut c[..]); m.set_raw_f50(r); }
            assert!(updated::<false>(&b[31..38], &c[31..38], 0, 50, r as u64) && others(&b, &c, 31, 38), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[38..45], 0, 51);
            assert!(s.get_raw_f51() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f51() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S0_4::new(&mut c[..]); m.set_f51(v); }
            assert!(updated::<false>(&b[38..45], &c[38..45], 0, 51, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 38, 45), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_4::new(&mut c[..]); m.set_raw_f51(r); }
            assert!(updated::<false>(&b[38..45], &c[38..45], 0, 51, r as u64) && others(&b, &c, 38, 45), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[45..52], 0, 52);
            assert!(s.get_raw_f52() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f52() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S0_4::new(&mut c[..]); m.set_f52(v); }
            assert!(updated::<false>(&b[45..52], &c[45..52], 0, 52, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 45, 52), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_4::new(&mut c[..]); m.set_raw_f52(r); }
            assert!(updated::<false>(&b[45..52], &c[45..52], 0, 52, r as u64) && others(&b, &c, 45, 52), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o0_g5() {
        use crate::ulet::*;
        const N: usize = 61;
        assert!(<S0_5<()> as FixedSize>::SIZE == N && SIZE_S0_5 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S0_5::new(&b[..]);
        {
            let raw = field::<false>(&b[0..7], 0, 53);
            assert!(s.get_raw_f53() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f53() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S0_5::new(&mut c[..]); m.set_f53(v); }
            assert!(updated::<false>(&b[0..7], &c[0..7], 0, 53, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_5::new(&mut c[..]); m.set_raw_f53(r); }
            assert!(updated::<false>(&b[0..7], &c[0..7], 0, 53, r as u64) && others(&b, &c, 0, 7), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[7..14], 0, 54);
            assert!(s.get_raw_f54() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f54() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S0_5::new(&mut c[..]); m.set_f54(v); }
            assert!(updated::<false>(&b[7..14], &c[7..14], 0, 54, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 14), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_5::new(&mut c[..]); m.set_raw_f54(r); }
            assert!(updated::<false>(&b[7..14], &c[7..14], 0, 54, r as u64) && others(&b, &c, 7, 14), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[14..21], 0, 55);
            assert!(s.get_raw_f55() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f55() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S0_5::new(&mut c[..]); m.set_f55(v); }
            assert!(updated::<false>(&b[14..21], &c[14..21], 0, 55, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 14, 21), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_5::new(&mut c[..]); m.set_raw_f55(r); }
            assert!(updated::<false>(&b[14..21], &c[14..21], 0, 55, r as u64) && others(&b, &c, 14, 21), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[21..29], 0, 58);
            assert!(s.get_raw_f58() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f58() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S0_5::new(&mut c[..]); m.set_f58(v); }
            assert!(updated::<false>(&b[21..29], &c[21..29], 0, 58, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 21, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_5::new(&mut c[..]); m.set_raw_f58(r); }
            assert!(updated::<false>(&b[21..29], &c[21..29], 0, 58, r as u64) && others(&b, &c, 21, 29), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[29..37], 0, 59);
            assert!(s.get_raw_f59() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f59() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S0_5::new(&mut c[..]); m.set_f59(v); }
            assert!(updated::<false>(&b[29..37], &c[29..37], 0, 59, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 29, 37), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_5::new(&mut c[..]); m.set_raw_f59(r); }
            assert!(updated::<false>(&b[29..37], &c[29..37], 0, 59, r as u64) && others(&b, &c, 29, 37), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[37..45], 0, 60);
            assert!(s.get_raw_f60() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f60() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S0_5::new(&mut c[..]); m.set_f60(v); }
            assert!(updated::<false>(&b[37..45], &c[37..45], 0, 60, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 37, 45), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_5::new(&mut c[..]); m.set_raw_f60(r); }
            assert!(updated::<false>(&b[37..45], &c[37..45], 0, 60, r as u64) && others(&b, &c, 37, 45), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[45..53], 0, 61);
            assert!(s.get_raw_f61() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f61() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S0_5::new(&mut c[..]); m.set_f61(v); }
            assert!(updated::<false>(&b[45..53], &c[45..53], 0, 61, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 45, 53), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_5::new(&mut c[..]); m.set_raw_f61(r); }
            assert!(updated::<false>(&b[45..53], &c[45..53], 0, 61, r as u64) && others(&b, &c, 45, 53), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[53..61], 0, 62);
            assert!(s.get_raw_f62() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f62() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S0_5::new(&mut c[..]); m.set_f62(v); }
            assert!(updated::<false>(&b[53..61], &c[53..61], 0, 62, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 53, 61), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_5::new(&mut c[..]); m.set_raw_f62(r); }
            assert!(updated::<false>(&b[53..61], &c[53..61], 0, 62, r as u64) && others(&b, &c, 53, 61), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o1_g0() {
        use crate::ulet::*;
        const N: usize = 12;
        assert!(<S1_0<()> as FixedSize>::SIZE == N && SIZE_S1_0 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S1_0::new(&b[..]);
        {
            let raw = field::<false>(&b[0..1], 1, 2);
            assert!(s.get_raw_f2() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f2() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S1_0::new(&mut c[..]); m.set_f2(v); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 1, 2, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_0::new(&mut c[..]); m.set_raw_f2(r); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 1, 2, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[1..2], 1, 4);
            assert!(s.get_raw_f4() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f4() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S1_0::new(&mut c[..]); m.set_f4(v); }
            assert!(updated::<false>(&b[1..2], &c[1..2], 1, 4, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_0::new(&mut c[..]); m.set_raw_f4(r); }
            assert!(updated::<false>(&b[1..2], &c[1..2], 1, 4, r as u64) && others(&b, &c, 1, 2), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[2..3], 1, 5);
            assert!(s.get_raw_f5() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f5() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S1_0::new(&mut c[..]); m.set_f5(v); }
            assert!(updated::<false>(&b[2..3], &c[2..3], 1, 5, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_0::new(&mut c[..]); m.set_raw_f5(r); }
            assert!(updated::<false>(&b[2..3], &c[2..3], 1, 5, r as u64) && others(&b, &c, 2, 3), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[3..4], 1, 6);
            assert!(s.get_raw_f6() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f6() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S1_0::new(&mut c[..]); m.set_f6(v); }
            assert!(updated::<false>(&b[3..4], &c[3..4], 1, 6, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_0::new(&mut c[..]); m.set_raw_f6(r); }
            assert!(updated::<false>(&b[3..4], &c[3..4], 1, 6, r as u64) && others(&b, &c, 3, 4), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[4..6], 1, 10);
            assert!(s.get_raw_f10() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f10() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S1_0::new(&mut c[..]); m.set_f10(v); }
            assert!(updated::<false>(&b[4..6], &c[4..6], 1, 10, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_0::new(&mut c[..]); m.set_raw_f10(r); }
            assert!(updated::<false>(&b[4..6], &c[4..6], 1, 10, r as u64) && others(&b, &c, 4, 6), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[6..8], 1, 11);
            assert!(s.get_raw_f11() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f11() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S1_0::new(&mut c[..]); m.set_f11(v); }
            assert!(updated::<false>(&b[6..8], &c[6..8], 1, 11, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_0::new(&mut c[..]); m.set_raw_f11(r); }
            assert!(updated::<false>(&b[6..8], &c[6..8], 1, 11, r as u64) && others(&b, &c, 6, 8), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[8..10], 1, 12);
            assert!(s.get_raw_f12() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f12() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S1_0::new(&mut c[..]); m.set_f12(v); }
            assert!(updated::<false>(&b[8..10], &c[8..10], 1, 12, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 8, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_0::new(&mut c[..]); m.set_raw_f12(r); }
            assert!(updated::<false>(&b[8..10], &c[8..10], 1, 12, r as u64) && others(&b, &c, 8, 10), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[10..12], 1, 13);
            assert!(s.get_raw_f13() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f13() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S1_0::new(&mut c[..]); m.set_f13(v); }
            assert!(updated::<false>(&b[10..12], &c[10..12], 1, 13, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 12), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_0::new(&mut c[..]); m.set_raw_f13(r); }
            assert!(updated::<false>(&b[10..12], &c[10..12], 1, 13, r as u64) && others(&b, &c, 10, 12), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o1_g1() {
        use crate::ulet::*;
        const N: usize = 22;
        assert!(<S1_1<()> as FixedSize>::SIZE == N && SIZE_S1_1 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S1_1::new(&b[..]);
        {
            let raw = field::<false>(&b[0..2], 1, 14);
            assert!(s.get_raw_f14() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f14() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S1_1::new(&mut c[..]); m.set_f14(v); }
            assert!(updated::<false>(&b[0..2], &c[0..2], 1, 14, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_1::new(&mut c[..]); m.set_raw_f14(r); }
            assert!(updated::<false>(&b[0..2], &c[0..2], 1, 14, r as u64) && others(&b, &c, 0, 2), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[2..4], 1, 15);
            assert!(s.get_raw_f15() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f15() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S1_1::new(&mut c[..]); m.set_f15(v); }
            assert!(updated::<false>(&b[2..4], &c[2..4], 1, 15, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_1::new(&mut c[..]); m.set_raw_f15(r); }
            assert!(updated::<false>(&b[2..4], &c[2..4], 1, 15, r as u64) && others(&b, &c, 2, 4), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[4..7], 1, 18);
            assert!(s.get_raw_f18() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f18() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S1_1::new(&mut c[..]); m.set_f18(v); }
            assert!(updated::<false>(&b[4..7], &c[4..7], 1, 18, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_1::new(&mut c[..]); m.set_raw_f18(r); }
            assert!(updated::<false>(&b[4..7], &c[4..7], 1, 18, r as u64) && others(&b, &c, 4, 7), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[7..10], 1, 19);
            assert!(s.get_raw_f19() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f19() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S1_1::new(&mut c[..]); m.set_f19(v); }
            assert!(updated::<false>(&b[7..10], &c[7..10], 1, 19, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_1::new(&mut c[..]); m.set_raw_f19(r); }
            assert!(updated::<false>(&b[7..10], &c[7..10], 1, 19, r as u64) && others(&b, &c, 7, 10), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[10..13], 1, 20);
            assert!(s.get_raw_f20() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f20() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S1_1::new(&mut c[..]); m.set_f20(v); }
            assert!(updated::<false>(&b[10..13], &c[10..13], 1, 20, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_1::new(&mut c[..]); m.set_raw_f20(r); }
            assert!(updated::<false>(&b[10..13], &c[10..13], 1, 20, r as u64) && others(&b, &c, 10, 13), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[13..16], 1, 21);
            assert!(s.get_raw_f21() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f21() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S1_1::new(&mut c[..]); m.set_f21(v); }
            assert!(updated::<false>(&b[13..16], &c[13..16], 1, 21, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 13, 16), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_1::new(&mut c[..]); m.set_raw_f21(r); }
            assert!(updated::<false>(&b[13..16], &c[13..16], 1, 21, r as u64) && others(&b, &c, 13, 16), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[16..19], 1, 22);
            assert!(s.get_raw_f22() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f22() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S1_1::new(&mut c[..]); m.set_f22(v); }
            assert!(updated::<false>(&b[16..19], &c[16..19], 1, 22, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_1::new(&mut c[..]); m.set_raw_f22(r); }
            assert!(updated::<false>(&b[16..19], &c[16..19], 1, 22, r as u64) && others(&b, &c, 16, 19), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[19..22], 1, 23);
            assert!(s.get_raw_f23() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f23() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S1_1::new(&mut c[..]); m.set_f23(v); }
            assert!(updated::<false>(&b[19..22], &c[19..22], 1, 23, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 19, 22), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_1::new(&mut c[..]); m.set_raw_f23(r); }
            assert!(updated::<false>(&b[19..22], &c[19..22], 1, 23, r as u64) && others(&b, &c, 19, 22), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o1_g2() {
        use crate::ulet::*;
        const N: usize = 34;
        assert!(<S1_2<()> as FixedSize>::SIZE == N && SIZE_S1_2 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S1_2::new(&b[..]);
        {
            let raw = field::<false>(&b[0..4], 1, 26);
            assert!(s.get_raw_f26() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f26() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S1_2::new(&mut c[..]); m.set_f26(v); }
            assert!(updated::<false>(&b[0..4], &c[0..4], 1, 26, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_2::new(&mut c[..]); m.set_raw_f26(r); }
            assert!(updated::<false>(&b[0..4], &c[0..4], 1, 26, r as u64) && others(&b, &c, 0, 4), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[4..8], 1, 27);
            assert!(s.get_raw_f27() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f27() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S1_2::new(&mut c[..]); m.set_f27(v); }
            assert!(updated::<false>(&b[4..8], &c[4..8], 1, 27, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_2::new(&mut c[..]); m.set_raw_f27(r); }
            assert!(updated::<false>(&b[4..8], &c[4..8], 1, 27, r as u64) && others(&b, &c, 4, 8), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[8..12], 1, 28);
            assert!(s.get_raw_f28() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f28() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S1_2::new(&mut c[..]); m.set_f28(v); }
            assert!(updated::<false>(&b[8..12], &c[8..12], 1, 28, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 8, 12), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_2::new(&mut c[..]); m.set_raw_f28(r); }
            assert!(updated::<false>(&b[8..12], &c[8..12], 1, 28, r as u64) && others(&b, &c, 8, 12), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[12..16], 1, 29);
            assert!(s.get_raw_f29() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f29() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S1_2::new(&mut c[..]); m.set_f29(v); }
            assert!(updated::<false>(&b[12..16], &c[12..16], 1, 29, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 16), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_2::new(&mut c[..]); m.set_raw_f29(r); }
            assert!(updated::<false>(&b[12..16], &c[12..16], 1, 29, r as u64) && others(&b, &c, 12, 16), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[16..20], 1, 30);
            assert!(s.get_raw_f30() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f30() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S1_2::new(&mut c[..]); m.set_f30(v); }
            assert!(updated::<false>(&b[16..20], &c[16..20], 1, 30, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_2::new(&mut c[..]); m.set_raw_f30(r); }
            assert!(updated::<false>(&b[16..20], &c[16..20], 1, 30, r as u64) && others(&b, &c, 16, 20), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[20..24], 1, 31);
            assert!(s.get_raw_f31() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f31() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S1_2::new(&mut c[..]); m.set_f31(v); }
            assert!(updated::<false>(&b[20..24], &c[20..24], 1, 31, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 24), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_2::new(&mut c[..]); m.set_raw_f31(r); }
            assert!(updated::<false>(&b[20..24], &c[20..24], 1, 31, r as u64) && others(&b, &c, 20, 24), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[24..29], 1, 34);
            assert!(s.get_raw_f34() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f34() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S1_2::new(&mut c[..]); m.set_f34(v); }
            assert!(updated::<false>(&b[24..29], &c[24..29], 1, 34, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 24, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_2::new(&mut c[..]); m.set_raw_f34(r); }
            assert!(updated::<false>(&b[24..29], &c[24..29], 1, 34, r as u64) && others(&b, &c, 24, 29), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[29..34], 1, 35);
            assert!(s.get_raw_f35() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f35() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S1_2::new(&mut c[..]); m.set_f35(v); }
            assert!(updated::<false>(&b[29..34], &c[29..34], 1, 35, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 29, 34), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_2::new(&mut c[..]); m.set_raw_f35(r); }
            assert!(updated::<false>(&b[29..34], &c[29..34], 1, 35, r as u64) && others(&b, &c, 29, 34), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o1_g3() {
        use crate::ulet::*;
        const N: usize = 44;
        assert!(<S1_3<()> as FixedSize>::SIZE == N && SIZE_S1_3 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S1_3::new(&b[..]);
        {
            let raw = field::<false>(&b[0..5], 1, 36);
            assert!(s.get_raw_f36() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f36() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S1_3::new(&mut c[..]); m.set_f36(v); }
            assert!(updated::<false>(&b[0..5], &c[0..5], 1, 36, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_3::new(&mut c[..]); m.set_raw_f36(r); }
            assert!(updated::<false>(&b[0..5], &c[0..5], 1, 36, r as u64) && others(&b, &c, 0, 5), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[5..10], 1, 37);
            assert!(s.get_raw_f37() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f37() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S1_3::new(&mut c[..]); m.set_f37(v); }
            assert!(updated::<false>(&b[5..10], &c[5..10], 1, 37, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_3::new(&mut c[..]); m.set_raw_f37(r); }
            assert!(updated::<false>(&b[5..10], &c[5..10], 1, 37, r as u64) && others(&b, &c, 5, 10), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[10..15], 1, 38);
            assert!(s.get_raw_f38() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f38() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S1_3::new(&mut c[..]); m.set_f38(v); }
            assert!(updated::<false>(&b[10..15], &c[10..15], 1, 38, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 15), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_3::new(&mut c[..]); m.set_raw_f38(r); }
            assert!(updated::<false>(&b[10..15], &c[10..15], 1, 38, r as u64) && others(&b, &c, 10, 15), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[15..20], 1, 39);
            assert!(s.get_raw_f39() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f39() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S1_3::new(&mut c[..]); m.set_f39(v); }
            assert!(updated::<false>(&b[15..20], &c[15..20], 1, 39, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 15, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_3::new(&mut c[..]); m.set_raw_f39(r); }
            assert!(updated::<false>(&b[15..20], &c[15..20], 1, 39, r as u64) && others(&b, &c, 15, 20), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[20..26], 1, 41);
            assert!(s.get_raw_f41() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f41() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S1_3::new(&mut c[..]); m.set_f41(v); }
            assert!(updated::<false>(&b[20..26], &c[20..26], 1, 41, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 26), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_3::new(&mut c[..]); m.set_raw_f41(r); }
            assert!(updated::<false>(&b[20..26], &c[20..26], 1, 41, r as u64) && others(&b, &c, 20, 26), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[26..32], 1, 42);
            assert!(s.get_raw_f42() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f42() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S1_3::new(&mut c[..]); m.set_f42(v); }
            assert!(updated::<false>(&b[26..32], &c[26..32], 1, 42, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 26, 32), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_3::new(&mut c[..]); m.set_raw_f42(r); }
            assert!(updated::<false>(&b[26..32], &c[26..32], 1, 42, r as u64) && others(&b, &c, 26, 32), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[32..38], 1, 43);
            assert!(s.get_raw_f43() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f43() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S1_3::new(&mut c[..]); m.set_f43(v); }
            assert!(updated::<false>(&b[32..38], &c[32..38], 1, 43, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 32, 38), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_3::new(&mut c[..]); m.set_raw_f43(r); }
            assert!(updated::<false>(&b[32..38], &c[32..38], 1, 43, r as u64) && others(&b, &c, 32, 38), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[38..44], 1, 44);
            assert!(s.get_raw_f44() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f44() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S1_3::new(&mut c[..]); m.set_f44(v); }
            assert!(updated::<false>(&b[38..44], &c[38..44], 1, 44, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 38, 44), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_3::new(&mut c[..]); m.set_raw_f44(r); }
            assert!(updated::<false>(&b[38..44], &c[38..44], 1, 44, r as u64) && others(&b, &c, 38, 44), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o1_g4() {
        use crate::ulet::*;
        const N: usize = 52;
        assert!(<S1_4<()> as FixedSize>::SIZE == N && SIZE_S1_4 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S1_4::new(&b[..]);
        {
            let raw = field::<false>(&b[0..6], 1, 45);
            assert!(s.get_raw_f45() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f45() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S1_4::new(&mut c[..]); m.set_f45(v); }
            assert!(updated::<false>(&b[0..6], &c[0..6], 1, 45, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_4::new(&mut c[..]); m.set_raw_f45(r); }
            assert!(updated::<false>(&b[0..6], &c[0..6], 1, 45, r as u64) && others(&b, &c, 0, 6), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[6..12], 1, 46);
            assert!(s.get_raw_f46() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f46() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S1_4::new(&mut c[..]); m.set_f46(v); }
            assert!(updated::<false>(&b[6..12], &c[6..12], 1, 46, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 12), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_4::new(&mut c[..]); m.set_raw_f46(r); }
            assert!(updated::<false>(&b[6..12], &c[6..12], 1, 46, r as u64) && others(&b, &c, 6, 12), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[12..18], 1, 47);
            assert!(s.get_raw_f47() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f47() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S1_4::new(&mut c[..]); m.set_f47(v); }
            assert!(updated::<false>(&b[12..18], &c[12..18], 1, 47, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 18), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_4::new(&mut c[..]); m.set_raw_f47(r); }
            assert!(updated::<false>(&b[12..18], &c[12..18], 1, 47, r as u64) && others(&b, &c, 12, 18), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[18..25], 1, 48);
            assert!(s.get_raw_f48() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f48() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S1_4::new(&mut c[..]); m.set_f48(v); }
            assert!(updated::<false>(&b[18..25], &c[18..25], 1, 48, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 18, 25), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_4::new(&mut c[..]); m.set_raw_f48(r); }
            assert!(updated::<false>(&b[18..25], &c[18..25], 1, 48, r as u64) && others(&b, &c, 18, 25), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[24..31], 1, 49);
            assert!(s.get_raw_f49() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f49() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S1_4::new(&mut c[..]); m.set_f49(v); }
            assert!(updated::<false>(&b[24..31], &c[24..31], 1, 49, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 24, 31), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_4::new(&mut c[..]); m.set_raw_f49(r); }
            assert!(updated::<false>(&b[24..31], &c[24..31], 1, 49, r as u64) && others(&b, &c, 24, 31), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[31..38], 1, 50);
            assert!(s.get_raw_f50() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f50() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S1_4::new(&mut c[..]); m.set_f50(v); }
            assert!(updated::<false>(&b[31..38], &c[31..38], 1, 50, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 31, 38), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_4::new(&mut c[..]); m.set_raw_f50(r); }
            assert!(updated::<false>(&b[31..38], &c[31..38], 1, 50, r as u64) && others(&b, &c, 31, 38), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[38..45], 1, 51);
            assert!(s.get_raw_f51() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f51() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S1_4::new(&mut c[..]); m.set_f51(v); }
            assert!(updated::<false>(&b[38..45], &c[38..45], 1, 51, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 38, 45), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_4::new(&mut c[..]); m.set_raw_f51(r); }
            assert!(updated::<false>(&b[38..45], &c[38..45], 1, 51, r as u64) && others(&b, &c, 38, 45), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[45..52], 1, 52);
            assert!(s.get_raw_f52() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f52() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S1_4::new(&mut c[..]); m.set_f52(v); }
            assert!(updated::<false>(&b[45..52], &c[45..52], 1, 52, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 45, 52), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_4::new(&mut c[..]); m.set_raw_f52(r); }
            assert!(updated::<false>(&b[45..52], &c[45..52], 1, 52, r as u64) && others(&b, &c, 45, 52), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o1_g5() {
        use crate::ulet::*;
        const N: usize = 61;
        assert!(<S1_5<()> as FixedSize>::SIZE == N && SIZE_S1_5 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S1_5::new(&b[..]);
        {
            let raw = field::<false>(&b[0..7], 1, 53);
            assert!(s.get_raw_f53() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f53() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S1_5::new(&mut c[..]); m.set_f53(v); }
            assert!(updated::<false>(&b[0..7], &c[0..7], 1, 53, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_5::new(&mut c[..]); m.set_raw_f53(r); }
            assert!(updated::<false>(&b[0..7], &c[0..7], 1, 53, r as u64) && others(&b, &c, 0, 7), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[7..14], 1, 54);
            assert!(s.get_raw_f54() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f54() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S1_5::new(&mut c[..]); m.set_f54(v); }
            assert!(updated::<false>(&b[7..14], &c[7..14], 1, 54, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 14), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_5::new(&mut c[..]); m.set_raw_f54(r); }
            assert!(updated::<false>(&b[7..14], &c[7..14], 1, 54, r as u64) && others(&b, &c, 7, 14), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[14..21], 1, 55);
            assert!(s.get_raw_f55() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f55() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S1_5::new(&mut c[..]); m.set_f55(v); }
            assert!(updated::<false>(&b[14..21], &c[14..21], 1, 55, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 14, 21), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_5::new(&mut c[..]); m.set_raw_f55(r); }
            assert!(updated::<false>(&b[14..21], &c[14..21], 1, 55, r as u64) && others(&b, &c, 14, 21), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[21..29], 1, 58);
            assert!(s.get_raw_f58() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f58() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S1_5::new(&mut c[..]); m.set_f58(v); }
            assert!(updated::<false>(&b[21..29], &c[21..29], 1, 58, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 21, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_5::new(&mut c[..]); m.set_raw_f58(r); }
            assert!(updated::<false>(&b[21..29], &c[21..29], 1, 58, r as u64) && others(&b, &c, 21, 29), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[29..37], 1, 59);
            assert!(s.get_raw_f59() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f59() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S1_5::new(&mut c[..]); m.set_f59(v); }
            assert!(updated::<false>(&b[29..37], &c[29..37], 1, 59, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 29, 37), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_5::new(&mut c[..]); m.set_raw_f59(r); }
            assert!(updated::<false>(&b[29..37], &c[29..37], 1, 59, r as u64) && others(&b, &c, 29, 37), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[37..45], 1, 60);
            assert!(s.get_raw_f60() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f60() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S1_5::new(&mut c[..]); m.set_f60(v); }
            assert!(updated::<false>(&b[37..45], &c[37..45], 1, 60, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 37, 45), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_5::new(&mut c[..]); m.set_raw_f60(r); }
            assert!(updated::<false>(&b[37..45], &c[37..45], 1, 60, r as u64) && others(&b, &c, 37, 45), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[45..53], 1, 61);
            assert!(s.get_raw_f61() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f61() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S1_5::new(&mut c[..]); m.set_f61(v); }
            assert!(updated::<false>(&b[45..53], &c[45..53], 1, 61, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 45, 53), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_5::new(&mut c[..]); m.set_raw_f61(r); }
            assert!(updated::<false>(&b[45..53], &c[45..53], 1, 61, r as u64) && others(&b, &c, 45, 53), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[53..61], 1, 62);
            assert!(s.get_raw_f62() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f62() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S1_5::new(&mut c[..]); m.set_f62(v); }
            assert!(updated::<false>(&b[53..61], &c[53..61], 1, 62, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 53, 61), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_5::new(&mut c[..]); m.set_raw_f62(r); }
            assert!(updated::<false>(&b[53..61], &c[53..61], 1, 62, r as u64) && others(&b, &c, 53, 61), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o2_g0() {
        use crate::ulet::*;
        const N: usize = 12;
        assert!(<S2_0<()> as FixedSize>::SIZE == N && SIZE_S2_0 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S2_0::new(&b[..]);
        {
            let raw = field::<false>(&b[0..1], 2, 2);
            assert!(s.get_raw_f2() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f2() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S2_0::new(&mut c[..]); m.set_f2(v); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 2, 2, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_0::new(&mut c[..]); m.set_raw_f2(r); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 2, 2, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[1..2], 2, 4);
            assert!(s.get_raw_f4() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f4() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S2_0::new(&mut c[..]); m.set_f4(v); }
            assert!(updated::<false>(&b[1..2], &c[1..2], 2, 4, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_0::new(&mut c[..]); m.set_raw_f4(r); }
            assert!(updated::<false>(&b[1..2], &c[1..2], 2, 4, r as u64) && others(&b, &c, 1, 2), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[2..3], 2, 5);
            assert!(s.get_raw_f5() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f5() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S2_0::new(&mut c[..]); m.set_f5(v); }
            assert!(updated::<false>(&b[2..3], &c[2..3], 2, 5, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_0::new(&mut c[..]); m.set_raw_f5(r); }
            assert!(updated::<false>(&b[2..3], &c[2..3], 2, 5, r as u64) && others(&b, &c, 2, 3), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[3..4], 2, 6);
            assert!(s.get_raw_f6() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f6() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S2_0::new(&mut c[..]); m.set_f6(v); }
            assert!(updated::<false>(&b[3..4], &c[3..4], 2, 6, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_0::new(&mut c[..]); m.set_raw_f6(r); }
            assert!(updated::<false>(&b[3..4], &c[3..4], 2, 6, r as u64) && others(&b, &c, 3, 4), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[4..6], 2, 10);
            assert!(s.get_raw_f10() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f10() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S2_0::new(&mut c[..]); m.set_f10(v); }
            assert!(updated::<false>(&b[4..6], &c[4..6], 2, 10, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_0::new(&mut c[..]); m.set_raw_f10(r); }
            assert!(updated::<false>(&b[4..6], &c[4..6], 2, 10, r as u64) && others(&b, &c, 4, 6), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[6..8], 2, 11);
            assert!(s.get_raw_f11() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f11() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S2_0::new(&mut c[..]); m.set_f11(v); }
            assert!(updated::<false>(&b[6..8], &c[6..8], 2, 11, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_0::new(&mut c[..]); m.set_raw_f11(r); }
            assert!(updated::<false>(&b[6..8], &c[6..8], 2, 11, r as u64) && others(&b, &c, 6, 8), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[8..10], 2, 12);
            assert!(s.get_raw_f12() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f12() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S2_0::new(&mut c[..]); m.set_f12(v); }
            assert!(updated::<false>(&b[8..10], &c[8..10], 2, 12, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 8, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_0::new(&mut c[..]); m.set_raw_f12(r); }
            assert!(updated::<false>(&b[8..10], &c[8..10], 2, 12, r as u64) && others(&b, &c, 8, 10), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[10..12], 2, 13);
            assert!(s.get_raw_f13() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f13() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S2_0::new(&mut c[..]); m.set_f13(v); }
            assert!(updated::<false>(&b[10..12], &c[10..12], 2, 13, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 12), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_0::new(&mut c[..]); m.set_raw_f13(r); }
            assert!(updated::<false>(&b[10..12], &c[10..12], 2, 13, r as u64) && others(&b, &c, 10, 12), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o2_g1() {
        use crate::ulet::*;
        const N: usize = 23;
        assert!(<S2_1<()> as FixedSize>::SIZE == N && SIZE_S2_1 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S2_1::new(&b[..]);
        {
            let raw = field::<false>(&b[0..2], 2, 14);
            assert!(s.get_raw_f14() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f14() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S2_1::new(&mut c[..]); m.set_f14(v); }
            assert!(updated::<false>(&b[0..2], &c[0..2], 2, 14, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_1::new(&mut c[..]); m.set_raw_f14(r); }
            assert!(updated::<false>(&b[0..2], &c[0..2], 2, 14, r as u64) && others(&b, &c, 0, 2), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[2..5], 2, 15);
            assert!(s.get_raw_f15() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f15() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S2_1::new(&mut c[..]); m.set_f15(v); }
            assert!(updated::<false>(&b[2..5], &c[2..5], 2, 15, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_1::new(&mut c[..]); m.set_raw_f15(r); }
            assert!(updated::<false>(&b[2..5], &c[2..5], 2, 15, r as u64) && others(&b, &c, 2, 5), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[4..7], 2, 18);
            assert!(s.get_raw_f18() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f18() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S2_1::new(&mut c[..]); m.set_f18(v); }
            assert!(updated::<false>(&b[4..7], &c[4..7], 2, 18, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_1::new(&mut c[..]); m.set_raw_f18(r); }
            assert!(updated::<false>(&b[4..7], &c[4..7], 2, 18, r as u64) && others(&b, &c, 4, 7), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[7..10], 2, 19);
            assert!(s.get_raw_f19() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f19() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S2_1::new(&mut c[..]); m.set_f19(v); }
            assert!(updated::<false>(&b[7..10], &c[7..10], 2, 19, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_1::new(&mut c[..]); m.set_raw_f19(r); }
            assert!(updated::<false>(&b[7..10], &c[7..10], 2, 19, r as u64) && others(&b, &c, 7, 10), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[10..13], 2, 20);
            assert!(s.get_raw_f20() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f20() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S2_1::new(&mut c[..]); m.set_f20(v); }
            assert!(updated::<false>(&b[10..13], &c[10..13], 2, 20, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_1::new(&mut c[..]); m.set_raw_f20(r); }
            assert!(updated::<false>(&b[10..13], &c[10..13], 2, 20, r as u64) && others(&b, &c, 10, 13), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[13..16], 2, 21);
            assert!(s.get_raw_f21() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f21() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S2_1::new(&mut c[..]); m.set_f21(v); }
            assert!(updated::<false>(&b[13..16], &c[13..16], 2, 21, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 13, 16), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_1::new(&mut c[..]); m.set_raw_f21(r); }
            assert!(updated::<false>(&b[13..16], &c[13..16], 2, 21, r as u64) && others(&b, &c, 13, 16), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[16..19], 2, 22);
            assert!(s.get_raw_f22() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f22() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S2_1::new(&mut c[..]); m.set_f22(v); }
            assert!(updated::<false>(&b[16..19], &c[16..19], 2, 22, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_1::new(&mut c[..]); m.set_raw_f22(r); }
            assert!(updated::<false>(&b[16..19], &c[16..19], 2, 22, r as u64) && others(&b, &c, 16, 19), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[19..23], 2, 23);
            assert!(s.get_raw_f23() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f23() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S2_1::new(&mut c[..]); m.set_f23(v); }
            assert!(updated::<false>(&b[19..23], &c[19..23], 2, 23, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 19, 23), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_1::new(&mut c[..]); m.set_raw_f23(r); }
            assert!(updated::<false>(&b[19..23], &c[19..23], 2, 23, r as u64) && others(&b, &c, 19, 23), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o2_g2() {
        use crate::ulet::*;
        const N: usize = 34;
        assert!(<S2_2<()> as FixedSize>::SIZE == N && SIZE_S2_2 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S2_2::new(&b[..]);
        {
            let raw = field::<false>(&b[0..4], 2, 26);
            assert!(s.get_raw_f26() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f26() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S2_2::new(&mut c[..]); m.set_f26(v); }
            assert!(updated::<false>(&b[0..4], &c[0..4], 2, 26, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_2::new(&mut c[..]); m.set_raw_f26(r); }
            assert!(updated::<false>(&b[0..4], &c[0..4], 2, 26, r as u64) && others(&b, &c, 0, 4), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[4..8], 2, 27);
            assert!(s.get_raw_f27() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f27() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S2_2::new(&mut c[..]); m.set_f27(v); }
            assert!(updated::<false>(&b[4..8], &c[4..8], 2, 27, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_2::new(&mut c[..]); m.set_raw_f27(r); }
            assert!(updated::<false>(&b[4..8], &c[4..8], 2, 27, r as u64) && others(&b, &c, 4, 8), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[8..12], 2, 28);
            assert!(s.get_raw_f28() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f28() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S2_2::new(&mut c[..]); m.set_f28(v); }
            assert!(updated::<false>(&b[8..12], &c[8..12], 2, 28, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 8, 12), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_2::new(&mut c[..]); m.set_raw_f28(r); }
            assert!(updated::<false>(&b[8..12], &c[8..12], 2, 28, r as u64) && others(&b, &c, 8, 12), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[12..16], 2, 29);
            assert!(s.get_raw_f29() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f29() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S2_2::new(&mut c[..]); m.set_f29(v); }
            assert!(updated::<false>(&b[12..16], &c[12..16], 2, 29, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 16), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_2::new(&mut c[..]); m.set_raw_f29(r); }
            assert!(updated::<false>(&b[12..16], &c[12..16], 2, 29, r as u64) && others(&b, &c, 12, 16), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[16..20], 2, 30);
            assert!(s.get_raw_f30() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f30() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S2_2::new(&mut c[..]); m.set_f30(v); }
            assert!(updated::<false>(&b[16..20], &c[16..20], 2, 30, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_2::new(&mut c[..]); m.set_raw_f30(r); }
            assert!(updated::<false>(&b[16..20], &c[16..20], 2, 30, r as u64) && others(&b, &c, 16, 20), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[20..25], 2, 31);
            assert!(s.get_raw_f31() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f31() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S2_2::new(&mut c[..]); m.set_f31(v); }
            assert!(updated::<false>(&b[20..25], &c[20..25], 2, 31, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 25), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_2::new(&mut c[..]); m.set_raw_f31(r); }
            assert!(updated::<false>(&b[20..25], &c[20..25], 2, 31, r as u64) && others(&b, &c, 20, 25), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[24..29], 2, 34);
            assert!(s.get_raw_f34() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f34() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S2_2::new(&mut c[..]); m.set_f34(v); }
            assert!(updated::<false>(&b[24..29], &c[24..29], 2, 34, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 24, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_2::new(&mut c[..]); m.set_raw_f34(r); }
            assert!(updated::<false>(&b[24..29], &c[24..29], 2, 34, r as u64) && others(&b, &c, 24, 29), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[29..34], 2, 35);
            assert!(s.get_raw_f35() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f35() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S2_2::new(&mut c[..]); m.set_f35(v); }
            assert!(updated::<false>(&b[29..34], &c[29..34], 2, 35, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 29, 34), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_2::new(&mut c[..]); m.set_raw_f35(r); }
            assert!(updated::<false>(&b[29..34], &c[29..34], 2, 35, r as u64) && others(&b, &c, 29, 34), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o2_g3() {
        use crate::ulet::*;
        const N: usize = 44;
        assert!(<S2_3<()> as FixedSize>::SIZE == N && SIZE_S2_3 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S2_3::new(&b[..]);
        {
            let raw = field::<false>(&b[0..5], 2, 36);
            assert!(s.get_raw_f36() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f36() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S2_3::new(&mut c[..]); m.set_f36(v); }
            assert!(updated::<false>(&b[0..5], &c[0..5], 2, 36, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_3::new(&mut c[..]); m.set_raw_f36(r); }
            assert!(updated::<false>(&b[0..5], &c[0..5], 2, 36, r as u64) && others(&b, &c, 0, 5), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[5..10], 2, 37);
            assert!(s.get_raw_f37() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f37() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S2_3::new(&mut c[..]); m.set_f37(v); }
            assert!(updated::<false>(&b[5..10], &c[5..10], 2, 37, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_3::new(&mut c[..]); m.set_raw_f37(r); }
            assert!(updated::<false>(&b[5..10], &c[5..10], 2, 37, r as u64) && others(&b, &c, 5, 10), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[10..15], 2, 38);
            assert!(s.get_raw_f38() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f38() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S2_3::new(&mut c[..]); m.set_f38(v); }
            assert!(updated::<false>(&b[10..15], &c[10..15], 2, 38, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 15), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_3::new(&mut c[..]); m.set_raw_f38(r); }
            assert!(updated::<false>(&b[10..15], &c[10..15], 2, 38, r as u64) && others(&b, &c, 10, 15), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[15..21], 2, 39);
            assert!(s.get_raw_f39() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f39() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S2_3::new(&mut c[..]); m.set_f39(v); }
            assert!(updated::<false>(&b[15..21], &c[15..21], 2, 39, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 15, 21), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_3::new(&mut c[..]); m.set_raw_f39(r); }
            assert!(updated::<false>(&b[15..21], &c[15..21], 2, 39, r as u64) && others(&b, &c, 15, 21), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[20..26], 2, 41);
            assert!(s.get_raw_f41() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f41() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S2_3::new(&mut c[..]); m.set_f41(v); }
            assert!(updated::<false>(&b[20..26], &c[20..26], 2, 41, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 26), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_3::new(&mut c[..]); m.set_raw_f41(r); }
            assert!(updated::<false>(&b[20..26], &c[20..26], 2, 41, r as u64) && others(&b, &c, 20, 26), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[26..32], 2, 42);
            assert!(s.get_raw_f42() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f42() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S2_3::new(&mut c[..]); m.set_f42(v); }
            assert!(updated::<false>(&b[26..32], &c[26..32], 2, 42, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 26, 32), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_3::new(&mut c[..]); m.set_raw_f42(r); }
            assert!(updated::<false>(&b[26..32], &c[26..32], 2, 42, r as u64) && others(&b, &c, 26, 32), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[32..38], 2, 43);
            assert!(s.get_raw_f43() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f43() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S2_3::new(&mut c[..]); m.set_f43(v); }
            assert!(updated::<false>(&b[32..38], &c[32..38], 2, 43, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 32, 38), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_3::new(&mut c[..]); m.set_raw_f43(r); }
            assert!(updated::<false>(&b[32..38], &c[32..38], 2, 43, r as u64) && others(&b, &c, 32, 38), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[38..44], 2, 44);
            assert!(s.get_raw_f44() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f44() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S2_3::new(&mut c[..]); m.set_f44(v); }
            assert!(updated::<false>(&b[38..44], &c[38..44], 2, 44, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 38, 44), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_3::new(&mut c[..]); m.set_raw_f44(r); }
            assert!(updated::<false>(&b[38..44], &c[38..44], 2, 44, r as u64) && others(&b, &c, 38, 44), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o2_g4() {
        use crate::ulet::*;
        const N: usize = 52;
        assert!(<S2_4<()> as FixedSize>::SIZE == N && SIZE_S2_4 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S2_4::new(&b[..]);
        {
            let raw = field::<false>(&b[0..6], 2, 45);
            assert!(s.get_raw_f45() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f45() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S2_4::new(&mut c[..]); m.set_f45(v); }
            assert!(updated::<false>(&b[0..6], &c[0..6], 2, 45, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_4::new(&mut c[..]); m.set_raw_f45(r); }
            assert!(updated::<false>(&b[0..6], &c[0..6], 2, 45, r as u64) && others(&b, &c, 0, 6), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[6..12], 2, 46);
            assert!(s.get_raw_f46() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f46() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S2_4::new(&mut c[..]); m.set_f46(v); }
            assert!(updated::<false>(&b[6..12], &c[6..12], 2, 46, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 12), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_4::new(&mut c[..]); m.set_raw_f46(r); }
            assert!(updated::<false>(&b[6..12], &c[6..12], 2, 46, r as u64) && others(&b, &c, 6, 12), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[12..19], 2, 47);
            assert!(s.get_raw_f47() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f47() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S2_4::new(&mut c[..]); m.set_f47(v); }
            assert!(updated::<false>(&b[12..19], &c[12..19], 2, 47, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_4::new(&mut c[..]); m.set_raw_f47(r); }
            assert!(updated::<false>(&b[12..19], &c[12..19], 2, 47, r as u64) && others(&b, &c, 12, 19), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[18..25], 2, 48);
            assert!(s.get_raw_f48() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f48() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S2_4::new(&mut c[..]); m.set_f48(v); }
            assert!(updated::<false>(&b[18..25], &c[18..25], 2, 48, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 18, 25), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_4::new(&mut c[..]); m.set_raw_f48(r); }
            assert!(updated::<false>(&b[18..25], &c[18..25], 2, 48, r as u64) && others(&b, &c, 18, 25), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[24..31], 2, 49);
            assert!(s.get_raw_f49() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f49() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S2_4::new(&mut c[..]); m.set_f49(v); }
            assert!(updated::<false>(&b[24..31], &c[24..31], 2, 49, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 24, 31), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_4::new(&mut c[..]); m.set_raw_f49(r); }
            assert!(updated::<false>(&b[24..31], &c[24..31], 2, 49, r as u64) && others(&b, &c, 24, 31), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[31..38], 2, 50);
            assert!(s.get_raw_f50() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f50() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S2_4::new(&mut c[..]); m.set_f50(v); }
            assert!(updated::<false>(&b[31..38], &c[31..38], 2, 50, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 31, 38), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_4::new(&mut c[..]); m.set_raw_f50(r); }
            assert!(updated::<false>(&b[31..38], &c[31..38], 2, 50, r as u64) && others(&b, &c, 31, 38), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[38..45], 2, 51);
            assert!(s.get_raw_f51() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f51() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S2_4::new(&mut c[..]); m.set_f51(v); }
            assert!(updated::<false>(&b[38..45], &c[38..45], 2, 51, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 38, 45), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_4::new(&mut c[..]); m.set_raw_f51(r); }
            assert!(updated::<false>(&b[38..45], &c[38..45], 2, 51, r as u64) && others(&b, &c, 38, 45), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[45..52], 2, 52);
            assert!(s.get_raw_f52() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f52() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S2_4::new(&mut c[..]); m.set_f52(v); }
            assert!(updated::<false>(&b[45..52], &c[45..52], 2, 52, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 45, 52), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_4::new(&mut c[..]); m.set_raw_f52(r); }
            assert!(updated::<false>(&b[45..52], &c[45..52], 2, 52, r as u64) && others(&b, &c, 45, 52), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o2_g5() {
        use crate::ulet::*;
        const N: usize = 61;
        assert!(<S2_5<()> as FixedSize>::SIZE == N && SIZE_S2_5 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S2_5::new(&b[..]);
        {
            let raw = field::<false>(&b[0..7], 2, 53);
            assert!(s.get_raw_f53() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f53() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S2_5::new(&mut c[..]); m.set_f53(v); }
            assert!(updated::<false>(&b[0..7], &c[0..7], 2, 53, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_5::new(&mut c[..]); m.set_raw_f53(r); }
            assert!(updated::<false>(&b[0..7], &c[0..7], 2, 53, r as u64) && others(&b, &c, 0, 7), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[7..14], 2, 54);
            assert!(s.get_raw_f54() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f54() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S2_5::new(&mut c[..]); m.set_f54(v); }
            assert!(updated::<false>(&b[7..14], &c[7..14], 2, 54, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 14), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_5::new(&mut c[..]); m.set_raw_f54(r); }
            assert!(updated::<false>(&b[7..14], &c[7..14], 2, 54, r as u64) && others(&b, &c, 7, 14), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[14..22], 2, 55);
            assert!(s.get_raw_f55() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f55() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S2_5::new(&mut c[..]); m.set_f55(v); }
            assert!(updated::<false>(&b[14..22], &c[14..22], 2, 55, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 14, 22), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_5::new(&mut c[..]); m.set_raw_f55(r); }
            assert!(updated::<false>(&b[14..22], &c[14..22], 2, 55, r as u64) && others(&b, &c, 14, 22), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[21..29], 2, 58);
            assert!(s.get_raw_f58() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f58() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S2_5::new(&mut c[..]); m.set_f58(v); }
            assert!(updated::<false>(&b[21..29], &c[21..29], 2, 58, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 21, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_5::new(&mut c[..]); m.set_raw_f58(r); }
            assert!(updated::<false>(&b[21..29], &c[21..29], 2, 58, r as u64) && others(&b, &c, 21, 29), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[29..37], 2, 59);
            assert!(s.get_raw_f59() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f59() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S2_5::new(&mut c[..]); m.set_f59(v); }
            assert!(updated::<false>(&b[29..37], &c[29..37], 2, 59, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 29, 37), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_5::new(&mut c[..]); m.set_raw_f59(r); }
            assert!(updated::<false>(&b[29..37], &c[29..37], 2, 59, r as u64) && others(&b, &c, 29, 37), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[37..45], 2, 60);
            assert!(s.get_raw_f60() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f60() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S2_5::new(&mut c[..]); m.set_f60(v); }
            assert!(updated::<false>(&b[37..45], &c[37..45], 2, 60, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 37, 45), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_5::new(&mut c[..]); m.set_raw_f60(r); }
            assert!(updated::<false>(&b[37..45], &c[37..45], 2, 60, r as u64) && others(&b, &c, 37, 45), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[45..53], 2, 61);
            assert!(s.get_raw_f61() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f61() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S2_5::new(&mut c[..]); m.set_f61(v); }
            assert!(updated::<false>(&b[45..53], &c[45..53], 2, 61, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 45, 53), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_5::new(&mut c[..]); m.set_raw_f61(r); }
            assert!(updated::<false>(&b[45..53], &c[45..53], 2, 61, r as u64) && others(&b, &c, 45, 53), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[53..61], 2, 62);
            assert!(s.get_raw_f62() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f62() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S2_5::new(&mut c[..]); m.set_f62(v); }
            assert!(updated::<false>(&b[53..61], &c[53..61], 2, 62, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 53, 61), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_5::new(&mut c[..]); m.set_raw_f62(r); }
            assert!(updated::<false>(&b[53..61], &c[53..61], 2, 62, r as u64) && others(&b, &c, 53, 61), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o3_g0() {
        use crate::ulet::*;
        const N: usize = 12;
        assert!(<S3_0<()> as FixedSize>::SIZE == N && SIZE_S3_0 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S3_0::new(&b[..]);
        {
            let raw = field::<false>(&b[0..1], 3, 2);
            assert!(s.get_raw_f2() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f2() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S3_0::new(&mut c[..]); m.set_f2(v); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 3, 2, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_0::new(&mut c[..]); m.set_raw_f2(r); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 3, 2, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[1..2], 3, 4);
            assert!(s.get_raw_f4() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f4() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S3_0::new(&mut c[..]); m.set_f4(v); }
            assert!(updated::<false>(&b[1..2], &c[1..2], 3, 4, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_0::new(&mut c[..]); m.set_raw_f4(r); }
            assert!(updated::<false>(&b[1..2], &c[1..2], 3, 4, r as u64) && others(&b, &c, 1, 2), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[2..3], 3, 5);
            assert!(s.get_raw_f5() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f5() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S3_0::new(&mut c[..]); m.set_f5(v); }
            assert!(updated::<false>(&b[2..3], &c[2..3], 3, 5, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_0::new(&mut c[..]); m.set_raw_f5(r); }
            assert!(updated::<false>(&b[2..3], &c[2..3], 3, 5, r as u64) && others(&b, &c, 2, 3), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[3..5], 3, 6);
            assert!(s.get_raw_f6() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f6() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S3_0::new(&mut c[..]); m.set_f6(v); }
            assert!(updated::<false>(&b[3..5], &c[3..5], 3, 6, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_0::new(&mut c[..]); m.set_raw_f6(r); }
            assert!(updated::<false>(&b[3..5], &c[3..5], 3, 6, r as u64) && others(&b, &c, 3, 5), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[4..6], 3, 10);
            assert!(s.get_raw_f10() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f10() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S3_0::new(&mut c[..]); m.set_f10(v); }
            assert!(updated::<false>(&b[4..6], &c[4..6], 3, 10, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_0::new(&mut c[..]); m.set_raw_f10(r); }
            assert!(updated::<false>(&b[4..6], &c[4..6], 3, 10, r as u64) && others(&b, &c, 4, 6), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[6..8], 3, 11);
            assert!(s.get_raw_f11() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f11() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S3_0::new(&mut c[..]); m.set_f11(v); }
            assert!(updated::<false>(&b[6..8], &c[6..8], 3, 11, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_0::new(&mut c[..]); m.set_raw_f11(r); }
            assert!(updated::<false>(&b[6..8], &c[6..8], 3, 11, r as u64) && others(&b, &c, 6, 8), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[8..10], 3, 12);
            assert!(s.get_raw_f12() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f12() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S3_0::new(&mut c[..]); m.set_f12(v); }
            assert!(updated::<false>(&b[8..10], &c[8..10], 3, 12, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 8, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_0::new(&mut c[..]); m.set_raw_f12(r); }
            assert!(updated::<false>(&b[8..10], &c[8..10], 3, 12, r as u64) && others(&b, &c, 8, 10), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[10..12], 3, 13);
            assert!(s.get_raw_f13() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f13() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S3_0::new(&mut c[..]); m.set_f13(v); }
            assert!(updated::<false>(&b[10..12], &c[10..12], 3, 13, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 12), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_0::new(&mut c[..]); m.set_raw_f13(r); }
            assert!(updated::<false>(&b[10..12], &c[10..12], 3, 13, r as u64) && others(&b, &c, 10, 12), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o3_g1() {
        use crate::ulet::*;
        const N: usize = 23;
        assert!(<S3_1<()> as FixedSize>::SIZE == N && SIZE_S3_1 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S3_1::new(&b[..]);
        {
            let raw = field::<false>(&b[0..3], 3, 14);
            assert!(s.get_raw_f14() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f14() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S3_1::new(&mut c[..]); m.set_f14(v); }
            assert!(updated::<false>(&b[0..3], &c[0..3], 3, 14, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_1::new(&mut c[..]); m.set_raw_f14(r); }
            assert!(updated::<false>(&b[0..3], &c[0..3], 3, 14, r as u64) && others(&b, &c, 0, 3), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[2..5], 3, 15);
            assert!(s.get_raw_f15() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f15() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S3_1::new(&mut c[..]); m.set_f15(v); }
            assert!(updated::<false>(&b[2..5], &c[2..5], 3, 15, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_1::new(&mut c[..]); m.set_raw_f15(r); }
            assert!(updated::<false>(&b[2..5], &c[2..5], 3, 15, r as u64) && others(&b, &c, 2, 5), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[4..7], 3, 18);
            assert!(s.get_raw_f18() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f18() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S3_1::new(&mut c[..]); m.set_f18(v); }
            assert!(updated::<false>(&b[4..7], &c[4..7], 3, 18, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_1::new(&mut c[..]); m.set_raw_f18(r); }
            assert!(updated::<false>(&b[4..7], &c[4..7], 3, 18, r as u64) && others(&b, &c, 4, 7), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[7..10], 3, 19);
            assert!(s.get_raw_f19() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f19() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S3_1::new(&mut c[..]); m.set_f19(v); }
            assert!(updated::<false>(&b[7..10], &c[7..10], 3, 19, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_1::new(&mut c[..]); m.set_raw_f19(r); }
            assert!(updated::<false>(&b[7..10], &c[7..10], 3, 19, r as u64) && others(&b, &c, 7, 10), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[10..13], 3, 20);
            assert!(s.get_raw_f20() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f20() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S3_1::new(&mut c[..]); m.set_f20(v); }
            assert!(updated::<false>(&b[10..13], &c[10..13], 3, 20, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_1::new(&mut c[..]); m.set_raw_f20(r); }
            assert!(updated::<false>(&b[10..13], &c[10..13], 3, 20, r as u64) && others(&b, &c, 10, 13), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[13..16], 3, 21);
            assert!(s.get_raw_f21() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f21() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S3_1::new(&mut c[..]); m.set_f21(v); }
            assert!(updated::<false>(&b[13..16], &c[13..16], 3, 21, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 13, 16), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_1::new(&mut c[..]); m.set_raw_f21(r); }
            assert!(updated::<false>(&b[13..16], &c[13..16], 3, 21, r as u64) && others(&b, &c, 13, 16), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[16..20], 3, 22);
            assert!(s.get_raw_f22() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f22() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S3_1::new(&mut c[..]); m.set_f22(v); }
            assert!(updated::<false>(&b[16..20], &c[16..20], 3, 22, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_1::new(&mut c[..]); m.set_raw_f22(r); }
            assert!(updated::<false>(&b[16..20], &c[16..20], 3, 22, r as u64) && others(&b, &c, 16, 20), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[19..23], 3, 23);
            assert!(s.get_raw_f23() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f23() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S3_1::new(&mut c[..]); m.set_f23(v); }
            assert!(updated::<false>(&b[19..23], &c[19..23], 3, 23, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 19, 23), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_1::new(&mut c[..]); m.set_raw_f23(r); }
            assert!(updated::<false>(&b[19..23], &c[19..23], 3, 23, r as u64) && others(&b, &c, 19, 23), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o3_g2() {
        use crate::ulet::*;
        const N: usize = 34;
        assert!(<S3_2<()> as FixedSize>::SIZE == N && SIZE_S3_2 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S3_2::new(&b[..]);
        {
            let raw = field::<false>(&b[0..4], 3, 26);
            assert!(s.get_raw_f26() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f26() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S3_2::new(&mut c[..]); m.set_f26(v); }
            assert!(updated::<false>(&b[0..4], &c[0..4], 3, 26, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_2::new(&mut c[..]); m.set_raw_f26(r); }
            assert!(updated::<false>(&b[0..4], &c[0..4], 3, 26, r as u64) && others(&b, &c, 0, 4), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[4..8], 3, 27);
            assert!(s.get_raw_f27() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f27() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S3_2::new(&mut c[..]); m.set_f27(v); }
            assert!(updated::<false>(&b[4..8], &c[4..8], 3, 27, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_2::new(&mut c[..]); m.set_raw_f27(r); }
            assert!(updated::<false>(&b[4..8], &c[4..8], 3, 27, r as u64) && others(&b, &c, 4, 8), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[8..12], 3, 28);
            assert!(s.get_raw_f28() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f28() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S3_2::new(&mut c[..]); m.set_f28(v); }
            assert!(updated::<false>(&b[8..12], &c[8..12], 3, 28, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 8, 12), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_2::new(&mut c[..]); m.set_raw_f28(r); }
            assert!(updated::<false>(&b[8..12], &c[8..12], 3, 28, r as u64) && others(&b, &c, 8, 12), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[12..16], 3, 29);
            assert!(s.get_raw_f29() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f29() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S3_2::new(&mut c[..]); m.set_f29(v); }
            assert!(updated::<false>(&b[12..16], &c[12..16], 3, 29, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 16), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_2::new(&mut c[..]); m.set_raw_f29(r); }
            assert!(updated::<false>(&b[12..16], &c[12..16], 3, 29, r as u64) && others(&b, &c, 12, 16), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[16..21], 3, 30);
            assert!(s.get_raw_f30() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f30() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S3_2::new(&mut c[..]); m.set_f30(v); }
            assert!(updated::<false>(&b[16..21], &c[16..21], 3, 30, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 21), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_2::new(&mut c[..]); m.set_raw_f30(r); }
            assert!(updated::<false>(&b[16..21], &c[16..21], 3, 30, r as u64) && others(&b, &c, 16, 21), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[20..25], 3, 31);
            assert!(s.get_raw_f31() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f31() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S3_2::new(&mut c[..]); m.set_f31(v); }
            assert!(updated::<false>(&b[20..25], &c[20..25], 3, 31, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 25), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_2::new(&mut c[..]); m.set_raw_f31(r); }
            assert!(updated::<false>(&b[20..25], &c[20..25], 3, 31, r as u64) && others(&b, &c, 20, 25), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[24..29], 3, 34);
            assert!(s.get_raw_f34() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f34() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S3_2::new(&mut c[..]); m.set_f34(v); }
            assert!(updated::<false>(&b[24..29], &c[24..29], 3, 34, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 24, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_2::new(&mut c[..]); m.set_raw_f34(r); }
            assert!(updated::<false>(&b[24..29], &c[24..29], 3, 34, r as u64) && others(&b, &c, 24, 29), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[29..34], 3, 35);
            assert!(s.get_raw_f35() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f35() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S3_2::new(&mut c[..]); m.set_f35(v); }
            assert!(updated::<false>(&b[29..34], &c[29..34], 3, 35, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 29, 34), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_2::new(&mut c[..]); m.set_raw_f35(r); }
            assert!(updated::<false>(&b[29..34], &c[29..34], 3, 35, r as u64) && others(&b, &c, 29, 34), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o3_g3() {
        use crate::ulet::*;
        const N: usize = 44;
        assert!(<S3_3<()> as FixedSize>::SIZE == N && SIZE_S3_3 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S3_3::new(&b[..]);
        {
            let raw = field::<false>(&b[0..5], 3, 36);
            assert!(s.get_raw_f36() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f36() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S3_3::new(&mut c[..]); m.set_f36(v); }
            assert!(updated::<false>(&b[0..5], &c[0..5], 3, 36, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_3::new(&mut c[..]); m.set_raw_f36(r); }
            assert!(updated::<false>(&b[0..5], &c[0..5], 3, 36, r as u64) && others(&b, &c, 0, 5), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[5..10], 3, 37);
            assert!(s.get_raw_f37() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f37() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S3_3::new(&mut c[..]); m.set_f37(v); }
            assert!(updated::<false>(&b[5..10], &c[5..10], 3, 37, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_3::new(&mut c[..]); m.set_raw_f37(r); }
            assert!(updated::<false>(&b[5..10], &c[5..10], 3, 37, r as u64) && others(&b, &c, 5, 10), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[10..16], 3, 38);
            assert!(s.get_raw_f38() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f38() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S3_3::new(&mut c[..]); m.set_f38(v); }
            assert!(updated::<false>(&b[10..16], &c[10..16], 3, 38, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 16), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_3::new(&mut c[..]); m.set_raw_f38(r); }
            assert!(updated::<false>(&b[10..16], &c[10..16], 3, 38, r as u64) && others(&b, &c, 10, 16), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[15..21], 3, 39);
            assert!(s.get_raw_f39() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f39() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S3_3::new(&mut c[..]); m.set_f39(v); }
            assert!(updated::<false>(&b[15..21], &c[15..21], 3, 39, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 15, 21), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_3::new(&mut c[..]); m.set_raw_f39(r); }
            assert!(updated::<false>(&b[15..21], &c[15..21], 3, 39, r as u64) && others(&b, &c, 15, 21), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[20..26], 3, 41);
            assert!(s.get_raw_f41() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f41() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S3_3::new(&mut c[..]); m.set_f41(v); }
            assert!(updated::<false>(&b[20..26], &c[20..26], 3, 41, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 26), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_3::new(&mut c[..]); m.set_raw_f41(r); }
            assert!(updated::<false>(&b[20..26], &c[20..26], 3, 41, r as u64) && others(&b, &c, 20, 26), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[26..32], 3, 42);
            assert!(s.get_raw_f42() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f42() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S3_3::new(&mut c[..]); m.set_f42(v); }
            assert!(updated::<false>(&b[26..32], &c[26..32], 3, 42, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 26, 32), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_3::new(&mut c[..]); m.set_raw_f42(r); }
            assert!(updated::<false>(&b[26..32], &c[26..32], 3, 42, r as u64) && others(&b, &c, 26, 32), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[32..38], 3, 43);
            assert!(s.get_raw_f43() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f43() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S3_3::new(&mut c[..]); m.set_f43(v); }
            assert!(updated::<false>(&b[32..38], &c[32..38], 3, 43, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 32, 38), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_3::new(&mut c[..]); m.set_raw_f43(r); }
            assert!(updated::<false>(&b[32..38], &c[32..38], 3, 43, r as u64) && others(&b, &c, 32, 38), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[38..44], 3, 44);
            assert!(s.get_raw_f44() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f44() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S3_3::new(&mut c[..]); m.set_f44(v); }
            assert!(updated::<false>(&b[38..44], &c[38..44], 3, 44, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 38, 44), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_3::new(&mut c[..]); m.set_raw_f44(r); }
            assert!(updated::<false>(&b[38..44], &c[38..44], 3, 44, r as u64) && others(&b, &c, 38, 44), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o3_g4() {
        use crate::ulet::*;
        const N: usize = 52;
        assert!(<S3_4<()> as FixedSize>::SIZE == N && SIZE_S3_4 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S3_4::new(&b[..]);
        {
            let raw = field::<false>(&b[0..6], 3, 45);
            assert!(s.get_raw_f45() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f45() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S3_4::new(&mut c[..]); m.set_f45(v); }
            assert!(updated::<false>(&b[0..6], &c[0..6], 3, 45, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_4::new(&mut c[..]); m.set_raw_f45(r); }
            assert!(updated::<false>(&b[0..6], &c[0..6], 3, 45, r as u64) && others(&b, &c, 0, 6), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[6..13], 3, 46);
            assert!(s.get_raw_f46() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f46() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S3_4::new(&mut c[..]); m.set_f46(v); }
            assert!(updated::<false>(&b[6..13], &c[6..13], 3, 46, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_4::new(&mut c[..]); m.set_raw_f46(r); }
            assert!(updated::<false>(&b[6..13], &c[6..13], 3, 46, r as u64) && others(&b, &c, 6, 13), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[12..19], 3, 47);
            assert!(s.get_raw_f47() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f47() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S3_4::new(&mut c[..]); m.set_f47(v); }
            assert!(updated::<false>(&b[12..19], &c[12..19], 3, 47, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_4::new(&mut c[..]); m.set_raw_f47(r); }
            assert!(updated::<false>(&b[12..19], &c[12..19], 3, 47, r as u64) && others(&b, &c, 12, 19), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[18..25], 3, 48);
            assert!(s.get_raw_f48() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f48() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S3_4::new(&mut c[..]); m.set_f48(v); }
            assert!(updated::<false>(&b[18..25], &c[18..25], 3, 48, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 18, 25), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_4::new(&mut c[..]); m.set_raw_f48(r); }
            assert!(updated::<false>(&b[18..25], &c[18..25], 3, 48, r as u64) && others(&b, &c, 18, 25), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[24..31], 3, 49);
            assert!(s.get_raw_f49() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f49() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S3_4::new(&mut c[..]); m.set_f49(v); }
            assert!(updated::<false>(&b[24..31], &c[24..31], 3, 49, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 24, 31), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_4::new(&mut c[..]); m.set_raw_f49(r); }
            assert!(updated::<false>(&b[24..31], &c[24..31], 3, 49, r as u64) && others(&b, &c, 24, 31), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[31..38], 3, 50);
            assert!(s.get_raw_f50() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f50() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S3_4::new(&mut c[..]); m.set_f50(v); }
            assert!(updated::<false>(&b[31..38], &c[31..38], 3, 50, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 31, 38), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_4::new(&mut c[..]); m.set_raw_f50(r); }
            assert!(updated::<false>(&b[31..38], &c[31..38], 3, 50, r as u64) && others(&b, &c, 31, 38), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[38..45], 3, 51);
            assert!(s.get_raw_f51() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f51() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S3_4::new(&mut c[..]); m.set_f51(v); }
            assert!(updated::<false>(&b[38..45], &c[38..45], 3, 51, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 38, 45), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_4::new(&mut c[..]); m.set_raw_f51(r); }
            assert!(updated::<false>(&b[38..45], &c[38..45], 3, 51, r as u64) && others(&b, &c, 38, 45), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[45..52], 3, 52);
            assert!(s.get_raw_f52() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f52() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S3_4::new(&mut c[..]); m.set_f52(v); }
            assert!(updated::<false>(&b[45..52], &c[45..52], 3, 52, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 45, 52), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_4::new(&mut c[..]); m.set_raw_f52(r); }
            assert!(updated::<false>(&b[45..52], &c[45..52], 3, 52, r as u64) && others(&b, &c, 45, 52), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o3_g5() {
        use crate::ulet::*;
        const N: usize = 62;
        assert!(<S3_5<()> as FixedSize>::SIZE == N && SIZE_S3_5 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S3_5::new(&b[..]);
        {
            let raw = field::<false>(&b[0..7], 3, 53);
            assert!(s.get_raw_f53() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f53() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S3_5::new(&mut c[..]); m.set_f53(v); }
            assert!(updated::<false>(&b[0..7], &c[0..7], 3, 53, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_5::new(&mut c[..]); m.set_raw_f53(r); }
            assert!(updated::<false>(&b[0..7], &c[0..7], 3, 53, r as u64) && others(&b, &c, 0, 7), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[7..15], 3, 54);
            assert!(s.get_raw_f54() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f54() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S3_5::new(&mut c[..]); m.set_f54(v); }
            assert!(updated::<false>(&b[7..15], &c[7..15], 3, 54, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 15), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_5::new(&mut c[..]); m.set_raw_f54(r); }
            assert!(updated::<false>(&b[7..15], &c[7..15], 3, 54, r as u64) && others(&b, &c, 7, 15), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[14..22], 3, 55);
            assert!(s.get_raw_f55() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f55() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S3_5::new(&mut c[..]); m.set_f55(v); }
            assert!(updated::<false>(&b[14..22], &c[14..22], 3, 55, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 14, 22), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_5::new(&mut c[..]); m.set_raw_f55(r); }
            assert!(updated::<false>(&b[14..22], &c[14..22], 3, 55, r as u64) && others(&b, &c, 14, 22), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[21..29], 3, 58);
            assert!(s.get_raw_f58() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f58() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S3_5::new(&mut c[..]); m.set_f58(v); }
            assert!(updated::<false>(&b[21..29], &c[21..29], 3, 58, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 21, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_5::new(&mut c[..]); m.set_raw_f58(r); }
            assert!(updated::<false>(&b[21..29], &c[21..29], 3, 58, r as u64) && others(&b, &c, 21, 29), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[29..37], 3, 59);
            assert!(s.get_raw_f59() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f59() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S3_5::new(&mut c[..]); m.set_f59(v); }
            assert!(updated::<false>(&b[29..37], &c[29..37], 3, 59, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 29, 37), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_5::new(&mut c[..]); m.set_raw_f59(r); }
            assert!(updated::<false>(&b[29..37], &c[29..37], 3, 59, r as u64) && others(&b, &c, 29, 37), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[37..45], 3, 60);
            assert!(s.get_raw_f60() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f60() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S3_5::new(&mut c[..]); m.set_f60(v); }
            assert!(updated::<false>(&b[37..45], &c[37..45], 3, 60, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 37, 45), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_5::new(&mut c[..]); m.set_raw_f60(r); }
            assert!(updated::<false>(&b[37..45], &c[37..45], 3, 60, r as u64) && others(&b, &c, 37, 45), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[45..53], 3, 61);
            assert!(s.get_raw_f61() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f61() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S3_5::new(&mut c[..]); m.set_f61(v); }
            assert!(updated::<false>(&b[45..53], &c[45..53], 3, 61, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 45, 53), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_5::new(&mut c[..]); m.set_raw_f61(r); }
            assert!(updated::<false>(&b[45..53], &c[45..53], 3, 61, r as u64) && others(&b, &c, 45, 53), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[53..62], 3, 62);
            assert!(s.get_raw_f62() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f62() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S3_5::new(&mut c[..]); m.set_f62(v); }
            assert!(updated::<false>(&b[53..62], &c[53..62], 3, 62, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 53, 62), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_5::new(&mut c[..]); m.set_raw_f62(r); }
            assert!(updated::<false>(&b[53..62], &c[53..62], 3, 62, r as u64) && others(&b, &c, 53, 62), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o4_g0() {
        use crate::ulet::*;
        const N: usize = 13;
        assert!(<S4_0<()> as FixedSize>::SIZE == N && SIZE_S4_0 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S4_0::new(&b[..]);
        {
            let raw = field::<false>(&b[0..1], 4, 2);
            assert!(s.get_raw_f2() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f2() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S4_0::new(&mut c[..]); m.set_f2(v); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 4, 2, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_0::new(&mut c[..]); m.set_raw_f2(r); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 4, 2, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[1..2], 4, 4);
            assert!(s.get_raw_f4() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f4() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S4_0::new(&mut c[..]); m.set_f4(v); }
            assert!(updated::<false>(&b[1..2], &c[1..2], 4, 4, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_0::new(&mut c[..]); m.set_raw_f4(r); }
            assert!(updated::<false>(&b[1..2], &c[1..2], 4, 4, r as u64) && others(&b, &c, 1, 2), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[2..4], 4, 5);
            assert!(s.get_raw_f5() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f5() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S4_0::new(&mut c[..]); m.set_f5(v); }
            assert!(updated::<false>(&b[2..4], &c[2..4], 4, 5, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_0::new(&mut c[..]); m.set_raw_f5(r); }
            assert!(updated::<false>(&b[2..4], &c[2..4], 4, 5, r as u64) && others(&b, &c, 2, 4), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[3..5], 4, 6);
            assert!(s.get_raw_f6() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f6() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S4_0::new(&mut c[..]); m.set_f6(v); }
            assert!(updated::<false>(&b[3..5], &c[3..5], 4, 6, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_0::new(&mut c[..]); m.set_raw_f6(r); }
            assert!(updated::<false>(&b[3..5], &c[3..5], 4, 6, r as u64) && others(&b, &c, 3, 5), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[4..6], 4, 10);
            assert!(s.get_raw_f10() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f10() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S4_0::new(&mut c[..]); m.set_f10(v); }
            assert!(updated::<false>(&b[4..6], &c[4..6], 4, 10, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_0::new(&mut c[..]); m.set_raw_f10(r); }
            assert!(updated::<false>(&b[4..6], &c[4..6], 4, 10, r as u64) && others(&b, &c, 4, 6), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[6..8], 4, 11);
            assert!(s.get_raw_f11() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f11() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S4_0::new(&mut c[..]); m.set_f11(v); }
            assert!(updated::<false>(&b[6..8], &c[6..8], 4, 11, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_0::new(&mut c[..]); m.set_raw_f11(r); }
            assert!(updated::<false>(&b[6..8], &c[6..8], 4, 11, r as u64) && others(&b, &c, 6, 8), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[8..10], 4, 12);
            assert!(s.get_raw_f12() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f12() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S4_0::new(&mut c[..]); m.set_f12(v); }
            assert!(updated::<false>(&b[8..10], &c[8..10], 4, 12, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 8, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_0::new(&mut c[..]); m.set_raw_f12(r); }
            assert!(updated::<false>(&b[8..10], &c[8..10], 4, 12, r as u64) && others(&b, &c, 8, 10), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[10..13], 4, 13);
            assert!(s.get_raw_f13() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f13() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S4_0::new(&mut c[..]); m.set_f13(v); }
            assert!(updated::<false>(&b[10..13], &c[10..13], 4, 13, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_0::new(&mut c[..]); m.set_raw_f13(r); }
            assert!(updated::<false>(&b[10..13], &c[10..13], 4, 13, r as u64) && others(&b, &c, 10, 13), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o4_g1() {
        use crate::ulet::*;
        const N: usize = 23;
        assert!(<S4_1<()> as FixedSize>::SIZE == N && SIZE_S4_1 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S4_1::new(&b[..]);
        {
            let raw = field::<false>(&b[0..3], 4, 14);
            assert!(s.get_raw_f14() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f14() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S4_1::new(&mut c[..]); m.set_f14(v); }
            assert!(updated::<false>(&b[0..3], &c[0..3], 4, 14, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_1::new(&mut c[..]); m.set_raw_f14(r); }
            assert!(updated::<false>(&b[0..3], &c[0..3], 4, 14, r as u64) && others(&b, &c, 0, 3), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[2..5], 4, 15);
            assert!(s.get_raw_f15() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f15() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S4_1::new(&mut c[..]); m.set_f15(v); }
            assert!(updated::<false>(&b[2..5], &c[2..5], 4, 15, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_1::new(&mut c[..]); m.set_raw_f15(r); }
            assert!(updated::<false>(&b[2..5], &c[2..5], 4, 15, r as u64) && others(&b, &c, 2, 5), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[4..7], 4, 18);
            assert!(s.get_raw_f18() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f18() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S4_1::new(&mut c[..]); m.set_f18(v); }
            assert!(updated::<false>(&b[4..7], &c[4..7], 4, 18, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_1::new(&mut c[..]); m.set_raw_f18(r); }
            assert!(updated::<false>(&b[4..7], &c[4..7], 4, 18, r as u64) && others(&b, &c, 4, 7), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[7..10], 4, 19);
            assert!(s.get_raw_f19() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f19() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S4_1::new(&mut c[..]); m.set_f19(v); }
            assert!(updated::<false>(&b[7..10], &c[7..10], 4, 19, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_1::new(&mut c[..]); m.set_raw_f19(r); }
            assert!(updated::<false>(&b[7..10], &c[7..10], 4, 19, r as u64) && others(&b, &c, 7, 10), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[10..13], 4, 20);
            assert!(s.get_raw_f20() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f20() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S4_1::new(&mut c[..]); m.set_f20(v); }
            assert!(updated::<false>(&b[10..13], &c[10..13], 4, 20, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_1::new(&mut c[..]); m.set_raw_f20(r); }
            assert!(updated::<false>(&b[10..13], &c[10..13], 4, 20, r as u64) && others(&b, &c, 10, 13), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[13..17], 4, 21);
            assert!(s.get_raw_f21() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f21() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S4_1::new(&mut c[..]); m.set_f21(v); }
            assert!(updated::<false>(&b[13..17], &c[13..17], 4, 21, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 13, 17), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_1::new(&mut c[..]); m.set_raw_f21(r); }
            assert!(updated::<false>(&b[13..17], &c[13..17], 4, 21, r as u64) && others(&b, &c, 13, 17), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[16..20], 4, 22);
            assert!(s.get_raw_f22() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f22() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S4_1::new(&mut c[..]); m.set_f22(v); }
            assert!(updated::<false>(&b[16..20], &c[16..20], 4, 22, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_1::new(&mut c[..]); m.set_raw_f22(r); }
            assert!(updated::<false>(&b[16..20], &c[16..20], 4, 22, r as u64) && others(&b, &c, 16, 20), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[19..23], 4, 23);
            assert!(s.get_raw_f23() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f23() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S4_1::new(&mut c[..]); m.set_f23(v); }
            assert!(updated::<false>(&b[19..23], &c[19..23], 4, 23, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 19, 23), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_1::new(&mut c[..]); m.set_raw_f23(r); }
            assert!(updated::<false>(&b[19..23], &c[19..23], 4, 23, r as u64) && others(&b, &c, 19, 23), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o4_g2() {
        use crate::ulet::*;
        const N: usize = 34;
        assert!(<S4_2<()> as FixedSize>::SIZE == N && SIZE_S4_2 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S4_2::new(&b[..]);
        {
            let raw = field::<false>(&b[0..4], 4, 26);
            assert!(s.get_raw_f26() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f26() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S4_2::new(&mut c[..]); m.set_f26(v); }
            assert!(updated::<false>(&b[0..4], &c[0..4], 4, 26, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_2::new(&mut c[..]); m.set_raw_f26(r); }
            assert!(updated::<false>(&b[0..4], &c[0..4], 4, 26, r as u64) && others(&b, &c, 0, 4), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[4..8], 4, 27);
            assert!(s.get_raw_f27() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f27() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S4_2::new(&mut c[..]); m.set_f27(v); }
            assert!(updated::<false>(&b[4..8], &c[4..8], 4, 27, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_2::new(&mut c[..]); m.set_raw_f27(r); }
            assert!(updated::<false>(&b[4..8], &c[4..8], 4, 27, r as u64) && others(&b, &c, 4, 8), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[8..12], 4, 28);
            assert!(s.get_raw_f28() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f28() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S4_2::new(&mut c[..]); m.set_f28(v); }
            assert!(updated::<false>(&b[8..12], &c[8..12], 4, 28, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 8, 12), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_2::new(&mut c[..]); m.set_raw_f28(r); }
            assert!(updated::<false>(&b[8..12], &c[8..12], 4, 28, r as u64) && others(&b, &c, 8, 12), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[12..17], 4, 29);
            assert!(s.get_raw_f29() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f29() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S4_2::new(&mut c[..]); m.set_f29(v); }
            assert!(updated::<false>(&b[12..17], &c[12..17], 4, 29, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 17), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_2::new(&mut c[..]); m.set_raw_f29(r); }
            assert!(updated::<false>(&b[12..17], &c[12..17], 4, 29, r as u64) && others(&b, &c, 12, 17), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[16..21], 4, 30);
            assert!(s.get_raw_f30() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f30() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S4_2::new(&mut c[..]); m.set_f30(v); }
            assert!(updated::<false>(&b[16..21], &c[16..21], 4, 30, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 21), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_2::new(&mut c[..]); m.set_raw_f30(r); }
            assert!(updated::<false>(&b[16..21], &c[16..21], 4, 30, r as u64) && others(&b, &c, 16, 21), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[20..25], 4, 31);
            assert!(s.get_raw_f31() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f31() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S4_2::new(&mut c[..]); m.set_f31(v); }
            assert!(updated::<false>(&b[20..25], &c[20..25], 4, 31, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 25), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_2::new(&mut c[..]); m.set_raw_f31(r); }
            assert!(updated::<false>(&b[20..25], &c[20..25], 4, 31, r as u64) && others(&b, &c, 20, 25), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[24..29], 4, 34);
            assert!(s.get_raw_f34() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f34() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S4_2::new(&mut c[..]); m.set_f34(v); }
            assert!(updated::<false>(&b[24..29], &c[24..29], 4, 34, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 24, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_2::new(&mut c[..]); m.set_raw_f34(r); }
            assert!(updated::<false>(&b[24..29], &c[24..29], 4, 34, r as u64) && others(&b, &c, 24, 29), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[29..34], 4, 35);
            assert!(s.get_raw_f35() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f35() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S4_2::new(&mut c[..]); m.set_f35(v); }
            assert!(updated::<false>(&b[29..34], &c[29..34], 4, 35, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 29, 34), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_2::new(&mut c[..]); m.set_raw_f35(r); }
            assert!(updated::<false>(&b[29..34], &c[29..34], 4, 35, r as u64) && others(&b, &c, 29, 34), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o4_g3() {
        use crate::ulet::*;
        const N: usize = 44;
        assert!(<S4_3<()> as FixedSize>::SIZE == N && SIZE_S4_3 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S4_3::new(&b[..]);
        {
            let raw = field::<false>(&b[0..5], 4, 36);
            assert!(s.get_raw_f36() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f36() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S4_3::new(&mut c[..]); m.set_f36(v); }
            assert!(updated::<false>(&b[0..5], &c[0..5], 4, 36, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_3::new(&mut c[..]); m.set_raw_f36(r); }
            assert!(updated::<false>(&b[0..5], &c[0..5], 4, 36, r as u64) && others(&b, &c, 0, 5), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[5..11], 4, 37);
            assert!(s.get_raw_f37() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f37() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S4_3::new(&mut c[..]); m.set_f37(v); }
            assert!(updated::<false>(&b[5..11], &c[5..11], 4, 37, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 11), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_3::new(&mut c[..]); m.set_raw_f37(r); }
            assert!(updated::<false>(&b[5..11], &c[5..11], 4, 37, r as u64) && others(&b, &c, 5, 11), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[10..16], 4, 38);
            assert!(s.get_raw_f38() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f38() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S4_3::new(&mut c[..]); m.set_f38(v); }
            assert!(updated::<false>(&b[10..16], &c[10..16], 4, 38, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 16), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_3::new(&mut c[..]); m.set_raw_f38(r); }
            assert!(updated::<false>(&b[10..16], &c[10..16], 4, 38, r as u64) && others(&b, &c, 10, 16), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[15..21], 4, 39);
            assert!(s.get_raw_f39() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f39() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S4_3::new(&mut c[..]); m.set_f39(v); }
            assert!(updated::<false>(&b[15..21], &c[15..21], 4, 39, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 15, 21), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_3::new(&mut c[..]); m.set_raw_f39(r); }
            assert!(updated::<false>(&b[15..21], &c[15..21], 4, 39, r as u64) && others(&b, &c, 15, 21), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[20..26], 4, 41);
            assert!(s.get_raw_f41() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f41() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S4_3::new(&mut c[..]); m.set_f41(v); }
            assert!(updated::<false>(&b[20..26], &c[20..26], 4, 41, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 26), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_3::new(&mut c[..]); m.set_raw_f41(r); }
            assert!(updated::<false>(&b[20..26], &c[20..26], 4, 41, r as u64) && others(&b, &c, 20, 26), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[26..32], 4, 42);
            assert!(s.get_raw_f42() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f42() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S4_3::new(&mut c[..]); m.set_f42(v); }
            assert!(updated::<false>(&b[26..32], &c[26..32], 4, 42, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 26, 32), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_3::new(&mut c[..]); m.set_raw_f42(r); }
            assert!(updated::<false>(&b[26..32], &c[26..32], 4, 42, r as u64) && others(&b, &c, 26, 32), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[32..38], 4, 43);
            assert!(s.get_raw_f43() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f43() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S4_3::new(&mut c[..]); m.set_f43(v); }
            assert!(updated::<false>(&b[32..38], &c[32..38], 4, 43, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 32, 38), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_3::new(&mut c[..]); m.set_raw_f43(r); }
            assert!(updated::<false>(&b[32..38], &c[32..38], 4, 43, r as u64) && others(&b, &c, 32, 38), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[38..44], 4, 44);
            assert!(s.get_raw_f44() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f44() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S4_3::new(&mut c[..]); m.set_f44(v); }
            assert!(updated::<false>(&b[38..44], &c[38..44], 4, 44, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 38, 44), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_3::new(&mut c[..]); m.set_raw_f44(r); }
            assert!(updated::<false>(&b[38..44], &c[38..44], 4, 44, r as u64) && others(&b, &c, 38, 44), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o4_g4() {
        use crate::ulet::*;
        const N: usize = 52;
        assert!(<S4_4<()> as FixedSize>::SIZE == N && SIZE_S4_4 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S4_4::new(&b[..]);
        {
            let raw = field::<false>(&b[0..7], 4, 45);
            assert!(s.get_raw_f45() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f45() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S4_4::new(&mut c[..]); m.set_f45(v); }
            assert!(updated::<false>(&b[0..7], &c[0..7], 4, 45, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_4::new(&mut c[..]); m.set_raw_f45(r); }
            assert!(updated::<false>(&b[0..7], &c[0..7], 4, 45, r as u64) && others(&b, &c, 0, 7), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[6..13], 4, 46);
            assert!(s.get_raw_f46() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f46() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S4_4::new(&mut c[..]); m.set_f46(v); }
            assert!(updated::<false>(&b[6..13], &c[6..13], 4, 46, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_4::new(&mut c[..]); m.set_raw_f46(r); }
            assert!(updated::<false>(&b[6..13], &c[6..13], 4, 46, r as u64) && others(&b, &c, 6, 13), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[12..19], 4, 47);
            assert!(s.get_raw_f47() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f47() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S4_4::new(&mut c[..]); m.set_f47(v); }
            assert!(updated::<false>(&b[12..19], &c[12..19], 4, 47, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_4::new(&mut c[..]); m.set_raw_f47(r); }
            assert!(updated::<false>(&b[12..19], &c[12..19], 4, 47, r as u64) && others(&b, &c, 12, 19), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[18..25], 4, 48);
            assert!(s.get_raw_f48() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f48() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S4_4::new(&mut c[..]); m.set_f48(v); }
            assert!(updated::<false>(&b[18..25], &c[18..25], 4, 48, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 18, 25), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_4::new(&mut c[..]); m.set_raw_f48(r); }
            assert!(updated::<false>(&b[18..25], &c[18..25], 4, 48, r as u64) && others(&b, &c, 18, 25), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[24..31], 4, 49);
            assert!(s.get_raw_f49() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f49() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S4_4::new(&mut c[..]); m.set_f49(v); }
            assert!(updated::<false>(&b[24..31], &c[24..31], 4, 49, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 24, 31), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_4::new(&mut c[..]); m.set_raw_f49(r); }
            assert!(updated::<false>(&b[24..31], &c[24..31], 4, 49, r as u64) && others(&b, &c, 24, 31), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[31..38], 4, 50);
            assert!(s.get_raw_f50() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f50() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S4_4::new(&mut c[..]); m.set_f50(v); }
            assert!(updated::<false>(&b[31..38], &c[31..38], 4, 50, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 31, 38), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_4::new(&mut c[..]); m.set_raw_f50(r); }
            assert!(updated::<false>(&b[31..38], &c[31..38], 4, 50, r as u64) && others(&b, &c, 31, 38), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[38..45], 4, 51);
            assert!(s.get_raw_f51() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f51() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S4_4::new(&mut c[..]); m.set_f51(v); }
            assert!(updated::<false>(&b[38..45], &c[38..45], 4, 51, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 38, 45), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_4::new(&mut c[..]); m.set_raw_f51(r); }
            assert!(updated::<false>(&b[38..45], &c[38..45], 4, 51, r as u64) && others(&b, &c, 38, 45), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[45..52], 4, 52);
            assert!(s.get_raw_f52() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f52() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S4_4::new(&mut c[..]); m.set_f52(v); }
            assert!(updated::<false>(&b[45..52], &c[45..52], 4, 52, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 45, 52), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_4::new(&mut c[..]); m.set_raw_f52(r); }
            assert!(updated::<false>(&b[45..52], &c[45..52], 4, 52, r as u64) && others(&b, &c, 45, 52), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o4_g5() {
        use crate::ulet::*;
        const N: usize = 62;
        assert!(<S4_5<()> as FixedSize>::SIZE == N && SIZE_S4_5 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S4_5::new(&b[..]);
        {
            let raw = field::<false>(&b[0..8], 4, 53);
            assert!(s.get_raw_f53() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f53() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S4_5::new(&mut c[..]); m.set_f53(v); }
            assert!(updated::<false>(&b[0..8], &c[0..8], 4, 53, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_5::new(&mut c[..]); m.set_raw_f53(r); }
            assert!(updated::<false>(&b[0..8], &c[0..8], 4, 53, r as u64) && others(&b, &c, 0, 8), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[7..15], 4, 54);
            assert!(s.get_raw_f54() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f54() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S4_5::new(&mut c[..]); m.set_f54(v); }
            assert!(updated::<false>(&b[7..15], &c[7..15], 4, 54, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 15), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_5::new(&mut c[..]); m.set_raw_f54(r); }
            assert!(updated::<false>(&b[7..15], &c[7..15], 4, 54, r as u64) && others(&b, &c, 7, 15), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[14..22], 4, 55);
            assert!(s.get_raw_f55() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f55() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S4_5::new(&mut c[..]); m.set_f55(v); }
            assert!(updated::<false>(&b[14..22], &c[14..22], 4, 55, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 14, 22), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_5::new(&mut c[..]); m.set_raw_f55(r); }
            assert!(updated::<false>(&b[14..22], &c[14..22], 4, 55, r as u64) && others(&b, &c, 14, 22), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[21..29], 4, 58);
            assert!(s.get_raw_f58() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f58() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S4_5::new(&mut c[..]); m.set_f58(v); }
            assert!(updated::<false>(&b[21..29], &c[21..29], 4, 58, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 21, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_5::new(&mut c[..]); m.set_raw_f58(r); }
            assert!(updated::<false>(&b[21..29], &c[21..29], 4, 58, r as u64) && others(&b, &c, 21, 29), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[29..37], 4, 59);
            assert!(s.get_raw_f59() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f59() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S4_5::new(&mut c[..]); m.set_f59(v); }
            assert!(updated::<false>(&b[29..37], &c[29..37], 4, 59, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 29, 37), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_5::new(&mut c[..]); m.set_raw_f59(r); }
            assert!(updated::<false>(&b[29..37], &c[29..37], 4, 59, r as u64) && others(&b, &c, 29, 37), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[37..45], 4, 60);
            assert!(s.get_raw_f60() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f60() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S4_5::new(&mut c[..]); m.set_f60(v); }
            assert!(updated::<false>(&b[37..45], &c[37..45], 4, 60, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 37, 45), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_5::new(&mut c[..]); m.set_raw_f60(r); }
            assert!(updated::<false>(&b[37..45], &c[37..45], 4, 60, r as u64) && others(&b, &c, 37, 45), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[45..54], 4, 61);
            assert!(s.get_raw_f61() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f61() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S4_5::new(&mut c[..]); m.set_f61(v); }
            assert!(updated::<false>(&b[45..54], &c[45..54], 4, 61, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 45, 54), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_5::new(&mut c[..]); m.set_raw_f61(r); }
            assert!(updated::<false>(&b[45..54], &c[45..54], 4, 61, r as u64) && others(&b, &c, 45, 54), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[53..62], 4, 62);
            assert!(s.get_raw_f62() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f62() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S4_5::new(&mut c[..]); m.set_f62(v); }
            assert!(updated::<false>(&b[53..62], &c[53..62], 4, 62, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 53, 62), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_5::new(&mut c[..]); m.set_raw_f62(r); }
            assert!(updated::<false>(&b[53..62], &c[53..62], 4, 62, r as u64) && others(&b, &c, 53, 62), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o5_g0() {
        use crate::ulet::*;
        const N: usize = 13;
        assert!(<S5_0<()> as FixedSize>::SIZE == N && SIZE_S5_0 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S5_0::new(&b[..]);
        {
            let raw = field::<false>(&b[0..1], 5, 2);
            assert!(s.get_raw_f2() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f2() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S5_0::new(&mut c[..]); m.set_f2(v); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 5, 2, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_0::new(&mut c[..]); m.set_raw_f2(r); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 5, 2, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[1..3], 5, 4);
            assert!(s.get_raw_f4() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f4() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S5_0::new(&mut c[..]); m.set_f4(v); }
            assert!(updated::<false>(&b[1..3], &c[1..3], 5, 4, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_0::new(&mut c[..]); m.set_raw_f4(r); }
            assert!(updated::<false>(&b[1..3], &c[1..3], 5, 4, r as u64) && others(&b, &c, 1, 3), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[2..4], 5, 5);
            assert!(s.get_raw_f5() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f5() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S5_0::new(&mut c[..]); m.set_f5(v); }
            assert!(updated::<false>(&b[2..4], &c[2..4], 5, 5, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_0::new(&mut c[..]); m.set_raw_f5(r); }
            assert!(updated::<false>(&b[2..4], &c[2..4], 5, 5, r as u64) && others(&b, &c, 2, 4), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[3..5], 5, 6);
            assert!(s.get_raw_f6() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f6() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S5_0::new(&mut c[..]); m.set_f6(v); }
            assert!(updated::<false>(&b[3..5], &c[3..5], 5, 6, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_0::new(&mut c[..]); m.set_raw_f6(r); }
            assert!(updated::<false>(&b[3..5], &c[3..5], 5, 6, r as u64) && others(&b, &c, 3, 5), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[4..6], 5, 10);
            assert!(s.get_raw_f10() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f10() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S5_0::new(&mut c[..]); m.set_f10(v); }
            assert!(updated::<false>(&b[4..6], &c[4..6], 5, 10, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_0::new(&mut c[..]); m.set_raw_f10(r); }
            assert!(updated::<false>(&b[4..6], &c[4..6], 5, 10, r as u64) && others(&b, &c, 4, 6), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[6..8], 5, 11);
            assert!(s.get_raw_f11() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f11() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S5_0::new(&mut c[..]); m.set_f11(v); }
            assert!(updated::<false>(&b[6..8], &c[6..8], 5, 11, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_0::new(&mut c[..]); m.set_raw_f11(r); }
            assert!(updated::<false>(&b[6..8], &c[6..8], 5, 11, r as u64) && others(&b, &c, 6, 8), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[8..11], 5, 12);
            assert!(s.get_raw_f12() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f12() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S5_0::new(&mut c[..]); m.set_f12(v); }
            assert!(updated::<false>(&b[8..11], &c[8..11], 5, 12, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 8, 11), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_0::new(&mut c[..]); m.set_raw_f12(r); }
            assert!(updated::<false>(&b[8..11], &c[8..11], 5, 12, r as u64) && others(&b, &c, 8, 11), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[10..13], 5, 13);
            assert!(s.get_raw_f13() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f13() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S5_0::new(&mut c[..]); m.set_f13(v); }
            assert!(updated::<false>(&b[10..13], &c[10..13], 5, 13, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_0::new(&mut c[..]); m.set_raw_f13(r); }
            assert!(updated::<false>(&b[10..13], &c[10..13], 5, 13, r as u64) && others(&b, &c, 10, 13), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o5_g1() {
        use crate::ulet::*;
        const N: usize = 23;
        assert!(<S5_1<()> as FixedSize>::SIZE == N && SIZE_S5_1 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S5_1::new(&b[..]);
        {
            let raw = field::<false>(&b[0..3], 5, 14);
            assert!(s.get_raw_f14() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f14() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S5_1::new(&mut c[..]); m.set_f14(v); }
            assert!(updated::<false>(&b[0..3], &c[0..3], 5, 14, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_1::new(&mut c[..]); m.set_raw_f14(r); }
            assert!(updated::<false>(&b[0..3], &c[0..3], 5, 14, r as u64) && others(&b, &c, 0, 3), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[2..5], 5, 15);
            assert!(s.get_raw_f15() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f15() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S5_1::new(&mut c[..]); m.set_f15(v); }
            assert!(updated::<false>(&b[2..5], &c[2..5], 5, 15, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_1::new(&mut c[..]); m.set_raw_f15(r); }
            assert!(updated::<false>(&b[2..5], &c[2..5], 5, 15, r as u64) && others(&b, &c, 2, 5), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[4..7], 5, 18);
            assert!(s.get_raw_f18() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f18() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S5_1::new(&mut c[..]); m.set_f18(v); }
            assert!(updated::<false>(&b[4..7], &c[4..7], 5, 18, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_1::new(&mut c[..]); m.set_raw_f18(r); }
            assert!(updated::<false>(&b[4..7], &c[4..7], 5, 18, r as u64) && others(&b, &c, 4, 7), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[7..10], 5, 19);
            assert!(s.get_raw_f19() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f19() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S5_1::new(&mut c[..]); m.set_f19(v); }
            assert!(updated::<false>(&b[7..10], &c[7..10], 5, 19, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_1::new(&mut c[..]); m.set_raw_f19(r); }
            assert!(updated::<false>(&b[7..10], &c[7..10], 5, 19, r as u64) && others(&b, &c, 7, 10), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[10..14], 5, 20);
            assert!(s.get_raw_f20() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f20() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S5_1::new(&mut c[..]); m.set_f20(v); }
            assert!(updated::<false>(&b[10..14], &c[10..14], 5, 20, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 14), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_1::new(&mut c[..]); m.set_raw_f20(r); }
            assert!(updated::<false>(&b[10..14], &c[10..14], 5, 20, r as u64) && others(&b, &c, 10, 14), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[13..17], 5, 21);
            assert!(s.get_raw_f21() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f21() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S5_1::new(&mut c[..]); m.set_f21(v); }
            assert!(updated::<false>(&b[13..17], &c[13..17], 5, 21, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 13, 17), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_1::new(&mut c[..]); m.set_raw_f21(r); }
            assert!(updated::<false>(&b[13..17], &c[13..17], 5, 21, r as u64) && others(&b, &c, 13, 17), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[16..20], 5, 22);
            assert!(s.get_raw_f22() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f22() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S5_1::new(&mut c[..]); m.set_f22(v); }
            assert!(updated::<false>(&b[16..20], &c[16..20], 5, 22, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_1::new(&mut c[..]); m.set_raw_f22(r); }
            assert!(updated::<false>(&b[16..20], &c[16..20], 5, 22, r as u64) && others(&b, &c, 16, 20), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[19..23], 5, 23);
            assert!(s.get_raw_f23() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f23() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S5_1::new(&mut c[..]); m.set_f23(v); }
            assert!(updated::<false>(&b[19..23], &c[19..23], 5, 23, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 19, 23), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_1::new(&mut c[..]); m.set_raw_f23(r); }
            assert!(updated::<false>(&b[19..23], &c[19..23], 5, 23, r as u64) && others(&b, &c, 19, 23), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o5_g2() {
        use crate::ulet::*;
        const N: usize = 34;
        assert!(<S5_2<()> as FixedSize>::SIZE == N && SIZE_S5_2 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S5_2::new(&b[..]);
        {
            let raw = field::<false>(&b[0..4], 5, 26);
            assert!(s.get_raw_f26() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f26() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S5_2::new(&mut c[..]); m.set_f26(v); }
            assert!(updated::<false>(&b[0..4], &c[0..4], 5, 26, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_2::new(&mut c[..]); m.set_raw_f26(r); }
            assert!(updated::<false>(&b[0..4], &c[0..4], 5, 26, r as u64) && others(&b, &c, 0, 4), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[4..8], 5, 27);
            assert!(s.get_raw_f27() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f27() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S5_2::new(&mut c[..]); m.set_f27(v); }
            assert!(updated::<false>(&b[4..8], &c[4..8], 5, 27, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_2::new(&mut c[..]); m.set_raw_f27(r); }
            assert!(updated::<false>(&b[4..8], &c[4..8], 5, 27, r as u64) && others(&b, &c, 4, 8), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[8..13], 5, 28);
            assert!(s.get_raw_f28() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f28() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S5_2::new(&mut c[..]); m.set_f28(v); }
            assert!(updated::<false>(&b[8..13], &c[8..13], 5, 28, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 8, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_2::new(&mut c[..]); m.set_raw_f28(r); }
            assert!(updated::<false>(&b[8..13], &c[8..13], 5, 28, r as u64) && others(&b, &c, 8, 13), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[12..17], 5, 29);
            assert!(s.get_raw_f29() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f29() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S5_2::new(&mut c[..]); m.set_f29(v); }
            assert!(updated::<false>(&b[12..17], &c[12..17], 5, 29, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 17), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_2::new(&mut c[..]); m.set_raw_f29(r); }
            assert!(updated::<false>(&b[12..17], &c[12..17], 5, 29, r as u64) && others(&b, &c, 12, 17), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[16..21], 5, 30);
            assert!(s.get_raw_f30() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f30() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S5_2::new(&mut c[..]); m.set_f30(v); }
            assert!(updated::<false>(&b[16..21], &c[16..21], 5, 30, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 21), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_2::new(&mut c[..]); m.set_raw_f30(r); }
            assert!(updated::<false>(&b[16..21], &c[16..21], 5, 30, r as u64) && others(&b, &c, 16, 21), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[20..25], 5, 31);
            assert!(s.get_raw_f31() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f31() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S5_2::new(&mut c[..]); m.set_f31(v); }
            assert!(updated::<false>(&b[20..25], &c[20..25], 5, 31, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 25), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_2::new(&mut c[..]); m.set_raw_f31(r); }
            assert!(updated::<false>(&b[20..25], &c[20..25], 5, 31, r as u64) && others(&b, &c, 20, 25), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[24..29], 5, 34);
            assert!(s.get_raw_f34() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f34() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S5_2::new(&mut c[..]); m.set_f34(v); }
            assert!(updated::<false>(&b[24..29], &c[24..29], 5, 34, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 24, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_2::new(&mut c[..]); m.set_raw_f34(r); }
            assert!(updated::<false>(&b[24..29], &c[24..29], 5, 34, r as u64) && others(&b, &c, 24, 29), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[29..34], 5, 35);
            assert!(s.get_raw_f35() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f35() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S5_2::new(&mut c[..]); m.set_f35(v); }
            assert!(updated::<false>(&b[29..34], &c[29..34], 5, 35, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 29, 34), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_2::new(&mut c[..]); m.set_raw_f35(r); }
            assert!(updated::<false>(&b[29..34], &c[29..34], 5, 35, r as u64) && others(&b, &c, 29, 34), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o5_g3() {
        use crate::ulet::*;
        const N: usize = 45;
        assert!(<S5_3<()> as FixedSize>::SIZE == N && SIZE_S5_3 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S5_3::new(&b[..]);
        {
            let raw = field::<false>(&b[0..6], 5, 36);
            assert!(s.get_raw_f36() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f36() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S5_3::new(&mut c[..]); m.set_f36(v); }
            assert!(updated::<false>(&b[0..6], &c[0..6], 5, 36, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_3::new(&mut c[..]); m.set_raw_f36(r); }
            assert!(updated::<false>(&b[0..6], &c[0..6], 5, 36, r as u64) && others(&b, &c, 0, 6), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[5..11], 5, 37);
            assert!(s.get_raw_f37() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f37() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S5_3::new(&mut c[..]); m.set_f37(v); }
            assert!(updated::<false>(&b[5..11], &c[5..11], 5, 37, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 11), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_3::new(&mut c[..]); m.set_raw_f37(r); }
            assert!(updated::<false>(&b[5..11], &c[5..11], 5, 37, r as u64) && others(&b, &c, 5, 11), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[10..16], 5, 38);
            assert!(s.get_raw_f38() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f38() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S5_3::new(&mut c[..]); m.set_f38(v); }
            assert!(updated::<false>(&b[10..16], &c[10..16], 5, 38, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 16), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_3::new(&mut c[..]); m.set_raw_f38(r); }
            assert!(updated::<false>(&b[10..16], &c[10..16], 5, 38, r as u64) && others(&b, &c, 10, 16), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[15..21], 5, 39);
            assert!(s.get_raw_f39() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f39() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S5_3::new(&mut c[..]); m.set_f39(v); }
            assert!(updated::<false>(&b[15..21], &c[15..21], 5, 39, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 15, 21), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_3::new(&mut c[..]); m.set_raw_f39(r); }
            assert!(updated::<false>(&b[15..21], &c[15..21], 5, 39, r as u64) && others(&b, &c, 15, 21), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[20..26], 5, 41);
            assert!(s.get_raw_f41() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f41() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S5_3::new(&mut c[..]); m.set_f41(v); }
            assert!(updated::<false>(&b[20..26], &c[20..26], 5, 41, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 26), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_3::new(&mut c[..]); m.set_raw_f41(r); }
            assert!(updated::<false>(&b[20..26], &c[20..26], 5, 41, r as u64) && others(&b, &c, 20, 26), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[26..32], 5, 42);
            assert!(s.get_raw_f42() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f42() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S5_3::new(&mut c[..]); m.set_f42(v); }
            assert!(updated::<false>(&b[26..32], &c[26..32], 5, 42, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 26, 32), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_3::new(&mut c[..]); m.set_raw_f42(r); }
            assert!(updated::<false>(&b[26..32], &c[26..32], 5, 42, r as u64) && others(&b, &c, 26, 32), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[32..38], 5, 43);
            assert!(s.get_raw_f43() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f43() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S5_3::new(&mut c[..]); m.set_f43(v); }
            assert!(updated::<false>(&b[32..38], &c[32..38], 5, 43, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 32, 38), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_3::new(&mut c[..]); m.set_raw_f43(r); }
            assert!(updated::<false>(&b[32..38], &c[32..38], 5, 43, r as u64) && others(&b, &c, 32, 38), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[38..45], 5, 44);
            assert!(s.get_raw_f44() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f44() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S5_3::new(&mut c[..]); m.set_f44(v); }
            assert!(updated::<false>(&b[38..45], &c[38..45], 5, 44, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 38, 45), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_3::new(&mut c[..]); m.set_raw_f44(r); }
            assert!(updated::<false>(&b[38..45], &c[38..45], 5, 44, r as u64) && others(&b, &c, 38, 45), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o5_g4() {
        use crate::ulet::*;
        const N: usize = 53;
        assert!(<S5_4<()> as FixedSize>::SIZE == N && SIZE_S5_4 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S5_4::new(&b[..]);
        {
            let raw = field::<false>(&b[0..7], 5, 45);
            assert!(s.get_raw_f45() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f45() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S5_4::new(&mut c[..]); m.set_f45(v); }
            assert!(updated::<false>(&b[0..7], &c[0..7], 5, 45, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_4::new(&mut c[..]); m.set_raw_f45(r); }
            assert!(updated::<false>(&b[0..7], &c[0..7], 5, 45, r as u64) && others(&b, &c, 0, 7), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[6..13], 5, 46);
            assert!(s.get_raw_f46() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f46() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S5_4::new(&mut c[..]); m.set_f46(v); }
            assert!(updated::<false>(&b[6..13], &c[6..13], 5, 46, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_4::new(&mut c[..]); m.set_raw_f46(r); }
            assert!(updated::<false>(&b[6..13], &c[6..13], 5, 46, r as u64) && others(&b, &c, 6, 13), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[12..19], 5, 47);
            assert!(s.get_raw_f47() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f47() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S5_4::new(&mut c[..]); m.set_f47(v); }
            assert!(updated::<false>(&b[12..19], &c[12..19], 5, 47, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_4::new(&mut c[..]); m.set_raw_f47(r); }
            assert!(updated::<false>(&b[12..19], &c[12..19], 5, 47, r as u64) && others(&b, &c, 12, 19), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[18..25], 5, 48);
            assert!(s.get_raw_f48() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f48() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S5_4::new(&mut c[..]); m.set_f48(v); }
            assert!(updated::<false>(&b[18..25], &c[18..25], 5, 48, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 18, 25), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_4::new(&mut c[..]); m.set_raw_f48(r); }
            assert!(updated::<false>(&b[18..25], &c[18..25], 5, 48, r as u64) && others(&b, &c, 18, 25), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[24..31], 5, 49);
            assert!(s.get_raw_f49() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f49() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S5_4::new(&mut c[..]); m.set_f49(v); }
            assert!(updated::<false>(&b[24..31], &c[24..31], 5, 49, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 24, 31), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_4::new(&mut c[..]); m.set_raw_f49(r); }
            assert!(updated::<false>(&b[24..31], &c[24..31], 5, 49, r as u64) && others(&b, &c, 24, 31), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[31..38], 5, 50);
            assert!(s.get_raw_f50() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f50() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S5_4::new(&mut c[..]); m.set_f50(v); }
            assert!(updated::<false>(&b[31..38], &c[31..38], 5, 50, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 31, 38), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_4::new(&mut c[..]); m.set_raw_f50(r); }
            assert!(updated::<false>(&b[31..38], &c[31..38], 5, 50, r as u64) && others(&b, &c, 31, 38), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[38..45], 5, 51);
            assert!(s.get_raw_f51() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f51() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S5_4::new(&mut c[..]); m.set_f51(v); }
            assert!(updated::<false>(&b[38..45], &c[38..45], 5, 51, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 38, 45), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_4::new(&mut c[..]); m.set_raw_f51(r); }
            assert!(updated::<false>(&b[38..45], &c[38..45], 5, 51, r as u64) && others(&b, &c, 38, 45), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[45..53], 5, 52);
            assert!(s.get_raw_f52() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f52() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S5_4::new(&mut c[..]); m.set_f52(v); }
            assert!(updated::<false>(&b[45..53], &c[45..53], 5, 52, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 45, 53), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_4::new(&mut c[..]); m.set_raw_f52(r); }
            assert!(updated::<false>(&b[45..53], &c[45..53], 5, 52, r as u64) && others(&b, &c, 45, 53), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o5_g5() {
        use crate::ulet::*;
        const N: usize = 62;
        assert!(<S5_5<()> as FixedSize>::SIZE == N && SIZE_S5_5 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S5_5::new(&b[..]);
        {
            let raw = field::<false>(&b[0..8], 5, 53);
            assert!(s.get_raw_f53() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f53() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S5_5::new(&mut c[..]); m.set_f53(v); }
            assert!(updated::<false>(&b[0..8], &c[0..8], 5, 53, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_5::new(&mut c[..]); m.set_raw_f53(r); }
            assert!(updated::<false>(&b[0..8], &c[0..8], 5, 53, r as u64) && others(&b, &c, 0, 8), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[7..15], 5, 54);
            assert!(s.get_raw_f54() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f54() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S5_5::new(&mut c[..]); m.set_f54(v); }
            assert!(updated::<false>(&b[7..15], &c[7..15], 5, 54, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 15), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_5::new(&mut c[..]); m.set_raw_f54(r); }
            assert!(updated::<false>(&b[7..15], &c[7..15], 5, 54, r as u64) && others(&b, &c, 7, 15), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[14..22], 5, 55);
            assert!(s.get_raw_f55() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f55() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S5_5::new(&mut c[..]); m.set_f55(v); }
            assert!(updated::<false>(&b[14..22], &c[14..22], 5, 55, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 14, 22), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_5::new(&mut c[..]); m.set_raw_f55(r); }
            assert!(updated::<false>(&b[14..22], &c[14..22], 5, 55, r as u64) && others(&b, &c, 14, 22), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[21..29], 5, 58);
            assert!(s.get_raw_f58() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f58() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S5_5::new(&mut c[..]); m.set_f58(v); }
            assert!(updated::<false>(&b[21..29], &c[21..29], 5, 58, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 21, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_5::new(&mut c[..]); m.set_raw_f58(r); }
            assert!(updated::<false>(&b[21..29], &c[21..29], 5, 58, r as u64) && others(&b, &c, 21, 29), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[29..37], 5, 59);
            assert!(s.get_raw_f59() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f59() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S5_5::new(&mut c[..]); m.set_f59(v); }
            assert!(updated::<false>(&b[29..37], &c[29..37], 5, 59, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 29, 37), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_5::new(&mut c[..]); m.set_raw_f59(r); }
            assert!(updated::<false>(&b[29..37], &c[29..37], 5, 59, r as u64) && others(&b, &c, 29, 37), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[37..46], 5, 60);
            assert!(s.get_raw_f60() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f60() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S5_5::new(&mut c[..]); m.set_f60(v); }
            assert!(updated::<false>(&b[37..46], &c[37..46], 5, 60, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 37, 46), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_5::new(&mut c[..]); m.set_raw_f60(r); }
            assert!(updated::<false>(&b[37..46], &c[37..46], 5, 60, r as u64) && others(&b, &c, 37, 46), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[45..54], 5, 61);
            assert!(s.get_raw_f61() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f61() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S5_5::new(&mut c[..]); m.set_f61(v); }
            assert!(updated::<false>(&b[45..54], &c[45..54], 5, 61, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 45, 54), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_5::new(&mut c[..]); m.set_raw_f61(r); }
            assert!(updated::<false>(&b[45..54], &c[45..54], 5, 61, r as u64) && others(&b, &c, 45, 54), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[53..62], 5, 62);
            assert!(s.get_raw_f62() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f62() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S5_5::new(&mut c[..]); m.set_f62(v); }
            assert!(updated::<false>(&b[53..62], &c[53..62], 5, 62, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 53, 62), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_5::new(&mut c[..]); m.set_raw_f62(r); }
            assert!(updated::<false>(&b[53..62], &c[53..62], 5, 62, r as u64) && others(&b, &c, 53, 62), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o6_g0() {
        use crate::ulet::*;
        const N: usize = 13;
        assert!(<S6_0<()> as FixedSize>::SIZE == N && SIZE_S6_0 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S6_0::new(&b[..]);
        {
            let raw = field::<false>(&b[0..1], 6, 2);
            assert!(s.get_raw_f2() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f2() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S6_0::new(&mut c[..]); m.set_f2(v); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 6, 2, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_0::new(&mut c[..]); m.set_raw_f2(r); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 6, 2, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[1..3], 6, 4);
            assert!(s.get_raw_f4() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f4() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S6_0::new(&mut c[..]); m.set_f4(v); }
            assert!(updated::<false>(&b[1..3], &c[1..3], 6, 4, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_0::new(&mut c[..]); m.set_raw_f4(r); }
            assert!(updated::<false>(&b[1..3], &c[1..3], 6, 4, r as u64) && others(&b, &c, 1, 3), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[2..4], 6, 5);
            assert!(s.get_raw_f5() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f5() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S6_0::new(&mut c[..]); m.set_f5(v); }
            assert!(updated::<false>(&b[2..4], &c[2..4], 6, 5, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_0::new(&mut c[..]); m.set_raw_f5(r); }
            assert!(updated::<false>(&b[2..4], &c[2..4], 6, 5, r as u64) && others(&b, &c, 2, 4), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[3..5], 6, 6);
            assert!(s.get_raw_f6() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f6() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S6_0::new(&mut c[..]); m.set_f6(v); }
            assert!(updated::<false>(&b[3..5], &c[3..5], 6, 6, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_0::new(&mut c[..]); m.set_raw_f6(r); }
            assert!(updated::<false>(&b[3..5], &c[3..5], 6, 6, r as u64) && others(&b, &c, 3, 5), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[4..6], 6, 10);
            assert!(s.get_raw_f10() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f10() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S6_0::new(&mut c[..]); m.set_f10(v); }
            assert!(updated::<false>(&b[4..6], &c[4..6], 6, 10, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_0::new(&mut c[..]); m.set_raw_f10(r); }
            assert!(updated::<false>(&b[4..6], &c[4..6], 6, 10, r as u64) && others(&b, &c, 4, 6), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[6..9], 6, 11);
            assert!(s.get_raw_f11() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f11() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S6_0::new(&mut c[..]); m.set_f11(v); }
            assert!(updated::<false>(&b[6..9], &c[6..9], 6, 11, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 9), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_0::new(&mut c[..]); m.set_raw_f11(r); }
            assert!(updated::<false>(&b[6..9], &c[6..9], 6, 11, r as u64) && others(&b, &c, 6, 9), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[8..11], 6, 12);
            assert!(s.get_raw_f12() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f12() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S6_0::new(&mut c[..]); m.set_f12(v); }
            assert!(updated::<false>(&b[8..11], &c[8..11], 6, 12, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 8, 11), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_0::new(&mut c[..]); m.set_raw_f12(r); }
            assert!(updated::<false>(&b[8..11], &c[8..11], 6, 12, r as u64) && others(&b, &c, 8, 11), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[10..13], 6, 13);
            assert!(s.get_raw_f13() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f13() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S6_0::new(&mut c[..]); m.set_f13(v); }
            assert!(updated::<false>(&b[10..13], &c[10..13], 6, 13, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_0::new(&mut c[..]); m.set_raw_f13(r); }
            assert!(updated::<false>(&b[10..13], &c[10..13], 6, 13, r as u64) && others(&b, &c, 10, 13), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o6_g1() {
        use crate::ulet::*;
        const N: usize = 23;
        assert!(<S6_1<()> as FixedSize>::SIZE == N && SIZE_S6_1 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S6_1::new(&b[..]);
        {
            let raw = field::<false>(&b[0..3], 6, 14);
            assert!(s.get_raw_f14() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f14() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S6_1::new(&mut c[..]); m.set_f14(v); }
            assert!(updated::<false>(&b[0..3], &c[0..3], 6, 14, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_1::new(&mut c[..]); m.set_raw_f14(r); }
            assert!(updated::<false>(&b[0..3], &c[0..3], 6, 14, r as u64) && others(&b, &c, 0, 3), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[2..5], 6, 15);
            assert!(s.get_raw_f15() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f15() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S6_1::new(&mut c[..]); m.set_f15(v); }
            assert!(updated::<false>(&b[2..5], &c[2..5], 6, 15, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_1::new(&mut c[..]); m.set_raw_f15(r); }
            assert!(updated::<false>(&b[2..5], &c[2..5], 6, 15, r as u64) && others(&b, &c, 2, 5), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[4..7], 6, 18);
            assert!(s.get_raw_f18() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f18() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S6_1::new(&mut c[..]); m.set_f18(v); }
            assert!(updated::<false>(&b[4..7], &c[4..7], 6, 18, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_1::new(&mut c[..]); m.set_raw_f18(r); }
            assert!(updated::<false>(&b[4..7], &c[4..7], 6, 18, r as u64) && others(&b, &c, 4, 7), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[7..11], 6, 19);
            assert!(s.get_raw_f19() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f19() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S6_1::new(&mut c[..]); m.set_f19(v); }
            assert!(updated::<false>(&b[7..11], &c[7..11], 6, 19, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 11), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_1::new(&mut c[..]); m.set_raw_f19(r); }
            assert!(updated::<false>(&b[7..11], &c[7..11], 6, 19, r as u64) && others(&b, &c, 7, 11), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[10..14], 6, 20);
            assert!(s.get_raw_f20() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f20() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S6_1::new(&mut c[..]); m.set_f20(v); }
            assert!(updated::<false>(&b[10..14], &c[10..14], 6, 20, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 14), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_1::new(&mut c[..]); m.set_raw_f20(r); }
            assert!(updated::<false>(&b[10..14], &c[10..14], 6, 20, r as u64) && others(&b, &c, 10, 14), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[13..17], 6, 21);
            assert!(s.get_raw_f21() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f21() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S6_1::new(&mut c[..]); m.set_f21(v); }
            assert!(updated::<false>(&b[13..17], &c[13..17], 6, 21, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 13, 17), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_1::new(&mut c[..]); m.set_raw_f21(r); }
            assert!(updated::<false>(&b[13..17], &c[13..17], 6, 21, r as u64) && others(&b, &c, 13, 17), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[16..20], 6, 22);
            assert!(s.get_raw_f22() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f22() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S6_1::new(&mut c[..]); m.set_f22(v); }
            assert!(updated::<false>(&b[16..20], &c[16..20], 6, 22, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_1::new(&mut c[..]); m.set_raw_f22(r); }
            assert!(updated::<false>(&b[16..20], &c[16..20], 6, 22, r as u64) && others(&b, &c, 16, 20), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[19..23], 6, 23);
            assert!(s.get_raw_f23() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f23() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S6_1::new(&mut c[..]); m.set_f23(v); }
            assert!(updated::<false>(&b[19..23], &c[19..23], 6, 23, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 19, 23), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_1::new(&mut c[..]); m.set_raw_f23(r); }
            assert!(updated::<false>(&b[19..23], &c[19..23], 6, 23, r as u64) && others(&b, &c, 19, 23), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o6_g2() {
        use crate::ulet::*;
        const N: usize = 35;
        assert!(<S6_2<()> as FixedSize>::SIZE == N && SIZE_S6_2 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S6_2::new(&b[..]);
        {
            let raw = field::<false>(&b[0..4], 6, 26);
            assert!(s.get_raw_f26() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f26() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S6_2::new(&mut c[..]); m.set_f26(v); }
            assert!(updated::<false>(&b[0..4], &c[0..4], 6, 26, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_2::new(&mut c[..]); m.set_raw_f26(r); }
            assert!(updated::<false>(&b[0..4], &c[0..4], 6, 26, r as u64) && others(&b, &c, 0, 4), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[4..9], 6, 27);
            assert!(s.get_raw_f27() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f27() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S6_2::new(&mut c[..]); m.set_f27(v); }
            assert!(updated::<false>(&b[4..9], &c[4..9], 6, 27, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 9), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_2::new(&mut c[..]); m.set_raw_f27(r); }
            assert!(updated::<false>(&b[4..9], &c[4..9], 6, 27, r as u64) && others(&b, &c, 4, 9), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[8..13], 6, 28);
            assert!(s.get_raw_f28() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f28() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S6_2::new(&mut c[..]); m.set_f28(v); }
            assert!(updated::<false>(&b[8..13], &c[8..13], 6, 28, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 8, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_2::new(&mut c[..]); m.set_raw_f28(r); }
            assert!(updated::<false>(&b[8..13], &c[8..13], 6, 28, r as u64) && others(&b, &c, 8, 13), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[12..17], 6, 29);
            assert!(s.get_raw_f29() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f29() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S6_2::new(&mut c[..]); m.set_f29(v); }
            assert!(updated::<false>(&b[12..17], &c[12..17], 6, 29, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 17), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_2::new(&mut c[..]); m.set_raw_f29(r); }
            assert!(updated::<false>(&b[12..17], &c[12..17], 6, 29, r as u64) && others(&b, &c, 12, 17), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[16..21], 6, 30);
            assert!(s.get_raw_f30() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f30() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S6_2::new(&mut c[..]); m.set_f30(v); }
            assert!(updated::<false>(&b[16..21], &c[16..21], 6, 30, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 21), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_2::new(&mut c[..]); m.set_raw_f30(r); }
            assert!(updated::<false>(&b[16..21], &c[16..21], 6, 30, r as u64) && others(&b, &c, 16, 21), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[20..25], 6, 31);
            assert!(s.get_raw_f31() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f31() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S6_2::new(&mut c[..]); m.set_f31(v); }
            assert!(updated::<false>(&b[20..25], &c[20..25], 6, 31, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 25), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_2::new(&mut c[..]); m.set_raw_f31(r); }
            assert!(updated::<false>(&b[20..25], &c[20..25], 6, 31, r as u64) && others(&b, &c, 20, 25), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[24..29], 6, 34);
            assert!(s.get_raw_f34() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f34() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S6_2::new(&mut c[..]); m.set_f34(v); }
            assert!(updated::<false>(&b[24..29], &c[24..29], 6, 34, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 24, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_2::new(&mut c[..]); m.set_raw_f34(r); }
            assert!(updated::<false>(&b[24..29], &c[24..29], 6, 34, r as u64) && others(&b, &c, 24, 29), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[29..35], 6, 35);
            assert!(s.get_raw_f35() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f35() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S6_2::new(&mut c[..]); m.set_f35(v); }
            assert!(updated::<false>(&b[29..35], &c[29..35], 6, 35, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 29, 35), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_2::new(&mut c[..]); m.set_raw_f35(r); }
            assert!(updated::<false>(&b[29..35], &c[29..35], 6, 35, r as u64) && others(&b, &c, 29, 35), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o6_g3() {
        use crate::ulet::*;
        const N: usize = 45;
        assert!(<S6_3<()> as FixedSize>::SIZE == N && SIZE_S6_3 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S6_3::new(&b[..]);
        {
            let raw = field::<false>(&b[0..6], 6, 36);
            assert!(s.get_raw_f36() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f36() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S6_3::new(&mut c[..]); m.set_f36(v); }
            assert!(updated::<false>(&b[0..6], &c[0..6], 6, 36, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_3::new(&mut c[..]); m.set_raw_f36(r); }
            assert!(updated::<false>(&b[0..6], &c[0..6], 6, 36, r as u64) && others(&b, &c, 0, 6), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[5..11], 6, 37);
            assert!(s.get_raw_f37() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f37() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S6_3::new(&mut c[..]); m.set_f37(v); }
            assert!(updated::<false>(&b[5..11], &c[5..11], 6, 37, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 11), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_3::new(&mut c[..]); m.set_raw_f37(r); }
            assert!(updated::<false>(&b[5..11], &c[5..11], 6, 37, r as u64) && others(&b, &c, 5, 11), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[10..16], 6, 38);
            assert!(s.get_raw_f38() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f38() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S6_3::new(&mut c[..]); m.set_f38(v); }
            assert!(updated::<false>(&b[10..16], &c[10..16], 6, 38, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 16), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_3::new(&mut c[..]); m.set_raw_f38(r); }
            assert!(updated::<false>(&b[10..16], &c[10..16], 6, 38, r as u64) && others(&b, &c, 10, 16), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[15..21], 6, 39);
            assert!(s.get_raw_f39() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f39() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S6_3::new(&mut c[..]); m.set_f39(v); }
            assert!(updated::<false>(&b[15..21], &c[15..21], 6, 39, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 15, 21), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_3::new(&mut c[..]); m.set_raw_f39(r); }
            assert!(updated::<false>(&b[15..21], &c[15..21], 6, 39, r as u64) && others(&b, &c, 15, 21), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[20..26], 6, 41);
            assert!(s.get_raw_f41() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f41() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S6_3::new(&mut c[..]); m.set_f41(v); }
            assert!(updated::<false>(&b[20..26], &c[20..26], 6, 41, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 26), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_3::new(&mut c[..]); m.set_raw_f41(r); }
            assert!(updated::<false>(&b[20..26], &c[20..26], 6, 41, r as u64) && others(&b, &c, 20, 26), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[26..32], 6, 42);
            assert!(s.get_raw_f42() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f42() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S6_3::new(&mut c[..]); m.set_f42(v); }
            assert!(updated::<false>(&b[26..32], &c[26..32], 6, 42, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 26, 32), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_3::new(&mut c[..]); m.set_raw_f42(r); }
            assert!(updated::<false>(&b[26..32], &c[26..32], 6, 42, r as u64) && others(&b, &c, 26, 32), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[32..39], 6, 43);
            assert!(s.get_raw_f43() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f43() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S6_3::new(&mut c[..]); m.set_f43(v); }
            assert!(updated::<false>(&b[32..39], &c[32..39], 6, 43, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 32, 39), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_3::new(&mut c[..]); m.set_raw_f43(r); }
            assert!(updated::<false>(&b[32..39], &c[32..39], 6, 43, r as u64) && others(&b, &c, 32, 39), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[38..45], 6, 44);
            assert!(s.get_raw_f44() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f44() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S6_3::new(&mut c[..]); m.set_f44(v); }
            assert!(updated::<false>(&b[38..45], &c[38..45], 6, 44, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 38, 45), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_3::new(&mut c[..]); m.set_raw_f44(r); }
            assert!(updated::<false>(&b[38..45], &c[38..45], 6, 44, r as u64) && others(&b, &c, 38, 45), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o6_g4() {
        use crate::ulet::*;
        const N: usize = 53;
        assert!(<S6_4<()> as FixedSize>::SIZE == N && SIZE_S6_4 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S6_4::new(&b[..]);
        {
            let raw = field::<false>(&b[0..7], 6, 45);
            assert!(s.get_raw_f45() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f45() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S6_4::new(&mut c[..]); m.set_f45(v); }
            assert!(updated::<false>(&b[0..7], &c[0..7], 6, 45, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_4::new(&mut c[..]); m.set_raw_f45(r); }
            assert!(updated::<false>(&b[0..7], &c[0..7], 6, 45, r as u64) && others(&b, &c, 0, 7), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[6..13], 6, 46);
            assert!(s.get_raw_f46() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f46() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S6_4::new(&mut c[..]); m.set_f46(v); }
            assert!(updated::<false>(&b[6..13], &c[6..13], 6, 46, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_4::new(&mut c[..]); m.set_raw_f46(r); }
            assert!(updated::<false>(&b[6..13], &c[6..13], 6, 46, r as u64) && others(&b, &c, 6, 13), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[12..19], 6, 47);
            assert!(s.get_raw_f47() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f47() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S6_4::new(&mut c[..]); m.set_f47(v); }
            assert!(updated::<false>(&b[12..19], &c[12..19], 6, 47, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_4::new(&mut c[..]); m.set_raw_f47(r); }
            assert!(updated::<false>(&b[12..19], &c[12..19], 6, 47, r as u64) && others(&b, &c, 12, 19), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[18..25], 6, 48);
            assert!(s.get_raw_f48() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f48() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S6_4::new(&mut c[..]); m.set_f48(v); }
            assert!(updated::<false>(&b[18..25], &c[18..25], 6, 48, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 18, 25), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_4::new(&mut c[..]); m.set_raw_f48(r); }
            assert!(updated::<false>(&b[18..25], &c[18..25], 6, 48, r as u64) && others(&b, &c, 18, 25), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[24..31], 6, 49);
            assert!(s.get_raw_f49() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f49() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S6_4::new(&mut c[..]); m.set_f49(v); }
            assert!(updated::<false>(&b[24..31], &c[24..31], 6, 49, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 24, 31), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_4::new(&mut c[..]); m.set_raw_f49(r); }
            assert!(updated::<false>(&b[24..31], &c[24..31], 6, 49, r as u64) && others(&b, &c, 24, 31), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[31..38], 6, 50);
            assert!(s.get_raw_f50() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f50() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S6_4::new(&mut c[..]); m.set_f50(v); }
            assert!(updated::<false>(&b[31..38], &c[31..38], 6, 50, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 31, 38), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_4::new(&mut c[..]); m.set_raw_f50(r); }
            assert!(updated::<false>(&b[31..38], &c[31..38], 6, 50, r as u64) && others(&b, &c, 31, 38), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[38..46], 6, 51);
            assert!(s.get_raw_f51() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f51() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S6_4::new(&mut c[..]); m.set_f51(v); }
            assert!(updated::<false>(&b[38..46], &c[38..46], 6, 51, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 38, 46), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_4::new(&mut c[..]); m.set_raw_f51(r); }
            assert!(updated::<false>(&b[38..46], &c[38..46], 6, 51, r as u64) && others(&b, &c, 38, 46), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[45..53], 6, 52);
            assert!(s.get_raw_f52() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f52() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S6_4::new(&mut c[..]); m.set_f52(v); }
            assert!(updated::<false>(&b[45..53], &c[45..53], 6, 52, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 45, 53), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_4::new(&mut c[..]); m.set_raw_f52(r); }
            assert!(updated::<false>(&b[45..53], &c[45..53], 6, 52, r as u64) && others(&b, &c, 45, 53), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o6_g5() {
        use crate::ulet::*;
        const N: usize = 62;
        assert!(<S6_5<()> as FixedSize>::SIZE == N && SIZE_S6_5 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S6_5::new(&b[..]);
        {
            let raw = field::<false>(&b[0..8], 6, 53);
            assert!(s.get_raw_f53() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f53() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S6_5::new(&mut c[..]); m.set_f53(v); }
            assert!(updated::<false>(&b[0..8], &c[0..8], 6, 53, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_5::new(&mut c[..]); m.set_raw_f53(r); }
            assert!(updated::<false>(&b[0..8], &c[0..8], 6, 53, r as u64) && others(&b, &c, 0, 8), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[7..15], 6, 54);
            assert!(s.get_raw_f54() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f54() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S6_5::new(&mut c[..]); m.set_f54(v); }
            assert!(updated::<false>(&b[7..15], &c[7..15], 6, 54, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 15), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_5::new(&mut c[..]); m.set_raw_f54(r); }
            assert!(updated::<false>(&b[7..15], &c[7..15], 6, 54, r as u64) && others(&b, &c, 7, 15), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[14..22], 6, 55);
            assert!(s.get_raw_f55() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f55() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S6_5::new(&mut c[..]); m.set_f55(v); }
            assert!(updated::<false>(&b[14..22], &c[14..22], 6, 55, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 14, 22), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_5::new(&mut c[..]); m.set_raw_f55(r); }
            assert!(updated::<false>(&b[14..22], &c[14..22], 6, 55, r as u64) && others(&b, &c, 14, 22), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[21..29], 6, 58);
            assert!(s.get_raw_f58() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f58() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S6_5::new(&mut c[..]); m.set_f58(v); }
            assert!(updated::<false>(&b[21..29], &c[21..29], 6, 58, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 21, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_5::new(&mut c[..]); m.set_raw_f58(r); }
            assert!(updated::<false>(&b[21..29], &c[21..29], 6, 58, r as u64) && others(&b, &c, 21, 29), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[29..38], 6, 59);
            assert!(s.get_raw_f59() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f59() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S6_5::new(&mut c[..]); m.set_f59(v); }
            assert!(updated::<false>(&b[29..38], &c[29..38], 6, 59, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 29, 38), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_5::new(&mut c[..]); m.set_raw_f59(r); }
            assert!(updated::<false>(&b[29..38], &c[29..38], 6, 59, r as u64) && others(&b, &c, 29, 38), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[37..46], 6, 60);
            assert!(s.get_raw_f60() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f60() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S6_5::new(&mut c[..]); m.set_f60(v); }
            assert!(updated::<false>(&b[37..46], &c[37..46], 6, 60, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 37, 46), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_5::new(&mut c[..]); m.set_raw_f60(r); }
            assert!(updated::<false>(&b[37..46], &c[37..46], 6, 60, r as u64) && others(&b, &c, 37, 46), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[45..54], 6, 61);
            assert!(s.get_raw_f61() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f61() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S6_5::new(&mut c[..]); m.set_f61(v); }
            assert!(updated::<false>(&b[45..54], &c[45..54], 6, 61, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 45, 54), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_5::new(&mut c[..]); m.set_raw_f61(r); }
            assert!(updated::<false>(&b[45..54], &c[45..54], 6, 61, r as u64) && others(&b, &c, 45, 54), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[53..62], 6, 62);
            assert!(s.get_raw_f62() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f62() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S6_5::new(&mut c[..]); m.set_f62(v); }
            assert!(updated::<false>(&b[53..62], &c[53..62], 6, 62, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 53, 62), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_5::new(&mut c[..]); m.set_raw_f62(r); }
            assert!(updated::<false>(&b[53..62], &c[53..62], 6, 62, r as u64) && others(&b, &c, 53, 62), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o7_g0() {
        use crate::ulet::*;
        const N: usize = 13;
        assert!(<S7_0<()> as FixedSize>::SIZE == N && SIZE_S7_0 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S7_0::new(&b[..]);
        {
            let raw = field::<false>(&b[0..2], 7, 2);
            assert!(s.get_raw_f2() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f2() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S7_0::new(&mut c[..]); m.set_f2(v); }
            assert!(updated::<false>(&b[0..2], &c[0..2], 7, 2, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_0::new(&mut c[..]); m.set_raw_f2(r); }
            assert!(updated::<false>(&b[0..2], &c[0..2], 7, 2, r as u64) && others(&b, &c, 0, 2), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[1..3], 7, 4);
            assert!(s.get_raw_f4() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f4() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S7_0::new(&mut c[..]); m.set_f4(v); }
            assert!(updated::<false>(&b[1..3], &c[1..3], 7, 4, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_0::new(&mut c[..]); m.set_raw_f4(r); }
            assert!(updated::<false>(&b[1..3], &c[1..3], 7, 4, r as u64) && others(&b, &c, 1, 3), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[2..4], 7, 5);
            assert!(s.get_raw_f5() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f5() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S7_0::new(&mut c[..]); m.set_f5(v); }
            assert!(updated::<false>(&b[2..4], &c[2..4], 7, 5, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_0::new(&mut c[..]); m.set_raw_f5(r); }
            assert!(updated::<false>(&b[2..4], &c[2..4], 7, 5, r as u64) && others(&b, &c, 2, 4), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[3..5], 7, 6);
            assert!(s.get_raw_f6() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f6() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S7_0::new(&mut c[..]); m.set_f6(v); }
            assert!(updated::<false>(&b[3..5], &c[3..5], 7, 6, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_0::new(&mut c[..]); m.set_raw_f6(r); }
            assert!(updated::<false>(&b[3..5], &c[3..5], 7, 6, r as u64) && others(&b, &c, 3, 5), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[4..7], 7, 10);
            assert!(s.get_raw_f10() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f10() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S7_0::new(&mut c[..]); m.set_f10(v); }
            assert!(updated::<false>(&b[4..7], &c[4..7], 7, 10, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_0::new(&mut c[..]); m.set_raw_f10(r); }
            assert!(updated::<false>(&b[4..7], &c[4..7], 7, 10, r as u64) && others(&b, &c, 4, 7), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[6..9], 7, 11);
            assert!(s.get_raw_f11() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f11() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S7_0::new(&mut c[..]); m.set_f11(v); }
            assert!(updated::<false>(&b[6..9], &c[6..9], 7, 11, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 9), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_0::new(&mut c[..]); m.set_raw_f11(r); }
            assert!(updated::<false>(&b[6..9], &c[6..9], 7, 11, r as u64) && others(&b, &c, 6, 9), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[8..11], 7, 12);
            assert!(s.get_raw_f12() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f12() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S7_0::new(&mut c[..]); m.set_f12(v); }
            assert!(updated::<false>(&b[8..11], &c[8..11], 7, 12, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 8, 11), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_0::new(&mut c[..]); m.set_raw_f12(r); }
            assert!(updated::<false>(&b[8..11], &c[8..11], 7, 12, r as u64) && others(&b, &c, 8, 11), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[10..13], 7, 13);
            assert!(s.get_raw_f13() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f13() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S7_0::new(&mut c[..]); m.set_f13(v); }
            assert!(updated::<false>(&b[10..13], &c[10..13], 7, 13, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_0::new(&mut c[..]); m.set_raw_f13(r); }
            assert!(updated::<false>(&b[10..13], &c[10..13], 7, 13, r as u64) && others(&b, &c, 10, 13), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o7_g1() {
        use crate::ulet::*;
        const N: usize = 23;
        assert!(<S7_1<()> as FixedSize>::SIZE == N && SIZE_S7_1 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S7_1::new(&b[..]);
        {
            let raw = field::<false>(&b[0..3], 7, 14);
            assert!(s.get_raw_f14() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f14() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S7_1::new(&mut c[..]); m.set_f14(v); }
            assert!(updated::<false>(&b[0..3], &c[0..3], 7, 14, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_1::new(&mut c[..]); m.set_raw_f14(r); }
            assert!(updated::<false>(&b[0..3], &c[0..3], 7, 14, r as u64) && others(&b, &c, 0, 3), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[2..5], 7, 15);
            assert!(s.get_raw_f15() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f15() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S7_1::new(&mut c[..]); m.set_f15(v); }
            assert!(updated::<false>(&b[2..5], &c[2..5], 7, 15, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_1::new(&mut c[..]); m.set_raw_f15(r); }
            assert!(updated::<false>(&b[2..5], &c[2..5], 7, 15, r as u64) && others(&b, &c, 2, 5), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[4..8], 7, 18);
            assert!(s.get_raw_f18() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f18() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S7_1::new(&mut c[..]); m.set_f18(v); }
            assert!(updated::<false>(&b[4..8], &c[4..8], 7, 18, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_1::new(&mut c[..]); m.set_raw_f18(r); }
            assert!(updated::<false>(&b[4..8], &c[4..8], 7, 18, r as u64) && others(&b, &c, 4, 8), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[7..11], 7, 19);
            assert!(s.get_raw_f19() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f19() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S7_1::new(&mut c[..]); m.set_f19(v); }
            assert!(updated::<false>(&b[7..11], &c[7..11], 7, 19, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 11), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_1::new(&mut c[..]); m.set_raw_f19(r); }
            assert!(updated::<false>(&b[7..11], &c[7..11], 7, 19, r as u64) && others(&b, &c, 7, 11), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[10..14], 7, 20);
            assert!(s.get_raw_f20() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f20() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S7_1::new(&mut c[..]); m.set_f20(v); }
            assert!(updated::<false>(&b[10..14], &c[10..14], 7, 20, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 14), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_1::new(&mut c[..]); m.set_raw_f20(r); }
            assert!(updated::<false>(&b[10..14], &c[10..14], 7, 20, r as u64) && others(&b, &c, 10, 14), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[13..17], 7, 21);
            assert!(s.get_raw_f21() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f21() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S7_1::new(&mut c[..]); m.set_f21(v); }
            assert!(updated::<false>(&b[13..17], &c[13..17], 7, 21, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 13, 17), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_1::new(&mut c[..]); m.set_raw_f21(r); }
            assert!(updated::<false>(&b[13..17], &c[13..17], 7, 21, r as u64) && others(&b, &c, 13, 17), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[16..20], 7, 22);
            assert!(s.get_raw_f22() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f22() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S7_1::new(&mut c[..]); m.set_f22(v); }
            assert!(updated::<false>(&b[16..20], &c[16..20], 7, 22, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_1::new(&mut c[..]); m.set_raw_f22(r); }
            assert!(updated::<false>(&b[16..20], &c[16..20], 7, 22, r as u64) && others(&b, &c, 16, 20), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[19..23], 7, 23);
            assert!(s.get_raw_f23() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f23() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S7_1::new(&mut c[..]); m.set_f23(v); }
            assert!(updated::<false>(&b[19..23], &c[19..23], 7, 23, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 19, 23), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_1::new(&mut c[..]); m.set_raw_f23(r); }
            assert!(updated::<false>(&b[19..23], &c[19..23], 7, 23, r as u64) && others(&b, &c, 19, 23), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o7_g2() {
        use crate::ulet::*;
        const N: usize = 35;
        assert!(<S7_2<()> as FixedSize>::SIZE == N && SIZE_S7_2 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S7_2::new(&b[..]);
        {
            let raw = field::<false>(&b[0..5], 7, 26);
            assert!(s.get_raw_f26() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f26() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S7_2::new(&mut c[..]); m.set_f26(v); }
            assert!(updated::<false>(&b[0..5], &c[0..5], 7, 26, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_2::new(&mut c[..]); m.set_raw_f26(r); }
            assert!(updated::<false>(&b[0..5], &c[0..5], 7, 26, r as u64) && others(&b, &c, 0, 5), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[4..9], 7, 27);
            assert!(s.get_raw_f27() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f27() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S7_2::new(&mut c[..]); m.set_f27(v); }
            assert!(updated::<false>(&b[4..9], &c[4..9], 7, 27, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 9), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_2::new(&mut c[..]); m.set_raw_f27(r); }
            assert!(updated::<false>(&b[4..9], &c[4..9], 7, 27, r as u64) && others(&b, &c, 4, 9), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[8..13], 7, 28);
            assert!(s.get_raw_f28() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f28() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S7_2::new(&mut c[..]); m.set_f28(v); }
            assert!(updated::<false>(&b[8..13], &c[8..13], 7, 28, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 8, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_2::new(&mut c[..]); m.set_raw_f28(r); }
            assert!(updated::<false>(&b[8..13], &c[8..13], 7, 28, r as u64) && others(&b, &c, 8, 13), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[12..17], 7, 29);
            assert!(s.get_raw_f29() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f29() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S7_2::new(&mut c[..]); m.set_f29(v); }
            assert!(updated::<false>(&b[12..17], &c[12..17], 7, 29, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 17), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_2::new(&mut c[..]); m.set_raw_f29(r); }
            assert!(updated::<false>(&b[12..17], &c[12..17], 7, 29, r as u64) && others(&b, &c, 12, 17), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[16..21], 7, 30);
            assert!(s.get_raw_f30() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f30() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S7_2::new(&mut c[..]); m.set_f30(v); }
            assert!(updated::<false>(&b[16..21], &c[16..21], 7, 30, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 21), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_2::new(&mut c[..]); m.set_raw_f30(r); }
            assert!(updated::<false>(&b[16..21], &c[16..21], 7, 30, r as u64) && others(&b, &c, 16, 21), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[20..25], 7, 31);
            assert!(s.get_raw_f31() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f31() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S7_2::new(&mut c[..]); m.set_f31(v); }
            assert!(updated::<false>(&b[20..25], &c[20..25], 7, 31, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 25), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_2::new(&mut c[..]); m.set_raw_f31(r); }
            assert!(updated::<false>(&b[20..25], &c[20..25], 7, 31, r as u64) && others(&b, &c, 20, 25), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[24..30], 7, 34);
            assert!(s.get_raw_f34() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f34() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S7_2::new(&mut c[..]); m.set_f34(v); }
            assert!(updated::<false>(&b[24..30], &c[24..30], 7, 34, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 24, 30), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_2::new(&mut c[..]); m.set_raw_f34(r); }
            assert!(updated::<false>(&b[24..30], &c[24..30], 7, 34, r as u64) && others(&b, &c, 24, 30), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[29..35], 7, 35);
            assert!(s.get_raw_f35() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f35() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S7_2::new(&mut c[..]); m.set_f35(v); }
            assert!(updated::<false>(&b[29..35], &c[29..35], 7, 35, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 29, 35), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_2::new(&mut c[..]); m.set_raw_f35(r); }
            assert!(updated::<false>(&b[29..35], &c[29..35], 7, 35, r as u64) && others(&b, &c, 29, 35), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o7_g3() {
        use crate::ulet::*;
        const N: usize = 45;
        assert!(<S7_3<()> as FixedSize>::SIZE == N && SIZE_S7_3 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S7_3::new(&b[..]);
        {
            let raw = field::<false>(&b[0..6], 7, 36);
            assert!(s.get_raw_f36() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f36() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S7_3::new(&mut c[..]); m.set_f36(v); }
            assert!(updated::<false>(&b[0..6], &c[0..6], 7, 36, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_3::new(&mut c[..]); m.set_raw_f36(r); }
            assert!(updated::<false>(&b[0..6], &c[0..6], 7, 36, r as u64) && others(&b, &c, 0, 6), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[5..11], 7, 37);
            assert!(s.get_raw_f37() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f37() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S7_3::new(&mut c[..]); m.set_f37(v); }
            assert!(updated::<false>(&b[5..11], &c[5..11], 7, 37, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 11), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_3::new(&mut c[..]); m.set_raw_f37(r); }
            assert!(updated::<false>(&b[5..11], &c[5..11], 7, 37, r as u64) && others(&b, &c, 5, 11), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[10..16], 7, 38);
            assert!(s.get_raw_f38() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f38() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S7_3::new(&mut c[..]); m.set_f38(v); }
            assert!(updated::<false>(&b[10..16], &c[10..16], 7, 38, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 16), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_3::new(&mut c[..]); m.set_raw_f38(r); }
            assert!(updated::<false>(&b[10..16], &c[10..16], 7, 38, r as u64) && others(&b, &c, 10, 16), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[15..21], 7, 39);
            assert!(s.get_raw_f39() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f39() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S7_3::new(&mut c[..]); m.set_f39(v); }
            assert!(updated::<false>(&b[15..21], &c[15..21], 7, 39, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 15, 21), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_3::new(&mut c[..]); m.set_raw_f39(r); }
            assert!(updated::<false>(&b[15..21], &c[15..21], 7, 39, r as u64) && others(&b, &c, 15, 21), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[20..26], 7, 41);
            assert!(s.get_raw_f41() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f41() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S7_3::new(&mut c[..]); m.set_f41(v); }
            assert!(updated::<false>(&b[20..26], &c[20..26], 7, 41, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 26), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_3::new(&mut c[..]); m.set_raw_f41(r); }
            assert!(updated::<false>(&b[20..26], &c[20..26], 7, 41, r as u64) && others(&b, &c, 20, 26), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[26..33], 7, 42);
            assert!(s.get_raw_f42() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f42() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S7_3::new(&mut c[..]); m.set_f42(v); }
            assert!(updated::<false>(&b[26..33], &c[26..33], 7, 42, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 26, 33), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_3::new(&mut c[..]); m.set_raw_f42(r); }
            assert!(updated::<false>(&b[26..33], &c[26..33], 7, 42, r as u64) && others(&b, &c, 26, 33), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[32..39], 7, 43);
            assert!(s.get_raw_f43() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f43() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S7_3::new(&mut c[..]); m.set_f43(v); }
            assert!(updated::<false>(&b[32..39], &c[32..39], 7, 43, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 32, 39), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_3::new(&mut c[..]); m.set_raw_f43(r); }
            assert!(updated::<false>(&b[32..39], &c[32..39], 7, 43, r as u64) && others(&b, &c, 32, 39), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[38..45], 7, 44);
            assert!(s.get_raw_f44() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f44() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S7_3::new(&mut c[..]); m.set_f44(v); }
            assert!(updated::<false>(&b[38..45], &c[38..45], 7, 44, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 38, 45), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_3::new(&mut c[..]); m.set_raw_f44(r); }
            assert!(updated::<false>(&b[38..45], &c[38..45], 7, 44, r as u64) && others(&b, &c, 38, 45), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o7_g4() {
        use crate::ulet::*;
        const N: usize = 53;
        assert!(<S7_4<()> as FixedSize>::SIZE == N && SIZE_S7_4 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S7_4::new(&b[..]);
        {
            let raw = field::<false>(&b[0..7], 7, 45);
            assert!(s.get_raw_f45() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f45() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S7_4::new(&mut c[..]); m.set_f45(v); }
            assert!(updated::<false>(&b[0..7], &c[0..7], 7, 45, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_4::new(&mut c[..]); m.set_raw_f45(r); }
            assert!(updated::<false>(&b[0..7], &c[0..7], 7, 45, r as u64) && others(&b, &c, 0, 7), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[6..13], 7, 46);
            assert!(s.get_raw_f46() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f46() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S7_4::new(&mut c[..]); m.set_f46(v); }
            assert!(updated::<false>(&b[6..13], &c[6..13], 7, 46, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_4::new(&mut c[..]); m.set_raw_f46(r); }
            assert!(updated::<false>(&b[6..13], &c[6..13], 7, 46, r as u64) && others(&b, &c, 6, 13), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[12..19], 7, 47);
            assert!(s.get_raw_f47() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f47() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S7_4::new(&mut c[..]); m.set_f47(v); }
            assert!(updated::<false>(&b[12..19], &c[12..19], 7, 47, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_4::new(&mut c[..]); m.set_raw_f47(r); }
            assert!(updated::<false>(&b[12..19], &c[12..19], 7, 47, r as u64) && others(&b, &c, 12, 19), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[18..25], 7, 48);
            assert!(s.get_raw_f48() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f48() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S7_4::new(&mut c[..]); m.set_f48(v); }
            assert!(updated::<false>(&b[18..25], &c[18..25], 7, 48, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 18, 25), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_4::new(&mut c[..]); m.set_raw_f48(r); }
            assert!(updated::<false>(&b[18..25], &c[18..25], 7, 48, r as u64) && others(&b, &c, 18, 25), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[24..31], 7, 49);
            assert!(s.get_raw_f49() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f49() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S7_4::new(&mut c[..]); m.set_f49(v); }
            assert!(updated::<false>(&b[24..31], &c[24..31], 7, 49, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 24, 31), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_4::new(&mut c[..]); m.set_raw_f49(r); }
            assert!(updated::<false>(&b[24..31], &c[24..31], 7, 49, r as u64) && others(&b, &c, 24, 31), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[31..39], 7, 50);
            assert!(s.get_raw_f50() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f50() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S7_4::new(&mut c[..]); m.set_f50(v); }
            assert!(updated::<false>(&b[31..39], &c[31..39], 7, 50, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 31, 39), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_4::new(&mut c[..]); m.set_raw_f50(r); }
            assert!(updated::<false>(&b[31..39], &c[31..39], 7, 50, r as u64) && others(&b, &c, 31, 39), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[38..46], 7, 51);
            assert!(s.get_raw_f51() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f51() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S7_4::new(&mut c[..]); m.set_f51(v); }
            assert!(updated::<false>(&b[38..46], &c[38..46], 7, 51, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 38, 46), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_4::new(&mut c[..]); m.set_raw_f51(r); }
            assert!(updated::<false>(&b[38..46], &c[38..46], 7, 51, r as u64) && others(&b, &c, 38, 46), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[45..53], 7, 52);
            assert!(s.get_raw_f52() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f52() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S7_4::new(&mut c[..]); m.set_f52(v); }
            assert!(updated::<false>(&b[45..53], &c[45..53], 7, 52, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 45, 53), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_4::new(&mut c[..]); m.set_raw_f52(r); }
            assert!(updated::<false>(&b[45..53], &c[45..53], 7, 52, r as u64) && others(&b, &c, 45, 53), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o7_g5() {
        use crate::ulet::*;
        const N: usize = 62;
        assert!(<S7_5<()> as FixedSize>::SIZE == N && SIZE_S7_5 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S7_5::new(&b[..]);
        {
            let raw = field::<false>(&b[0..8], 7, 53);
            assert!(s.get_raw_f53() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f53() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S7_5::new(&mut c[..]); m.set_f53(v); }
            assert!(updated::<false>(&b[0..8], &c[0..8], 7, 53, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_5::new(&mut c[..]); m.set_raw_f53(r); }
            assert!(updated::<false>(&b[0..8], &c[0..8], 7, 53, r as u64) && others(&b, &c, 0, 8), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[7..15], 7, 54);
            assert!(s.get_raw_f54() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f54() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S7_5::new(&mut c[..]); m.set_f54(v); }
            assert!(updated::<false>(&b[7..15], &c[7..15], 7, 54, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 15), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_5::new(&mut c[..]); m.set_raw_f54(r); }
            assert!(updated::<false>(&b[7..15], &c[7..15], 7, 54, r as u64) && others(&b, &c, 7, 15), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[14..22], 7, 55);
            assert!(s.get_raw_f55() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f55() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S7_5::new(&mut c[..]); m.set_f55(v); }
            assert!(updated::<false>(&b[14..22], &c[14..22], 7, 55, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 14, 22), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_5::new(&mut c[..]); m.set_raw_f55(r); }
            assert!(updated::<false>(&b[14..22], &c[14..22], 7, 55, r as u64) && others(&b, &c, 14, 22), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[21..30], 7, 58);
            assert!(s.get_raw_f58() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f58() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S7_5::new(&mut c[..]); m.set_f58(v); }
            assert!(updated::<false>(&b[21..30], &c[21..30], 7, 58, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 21, 30), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_5::new(&mut c[..]); m.set_raw_f58(r); }
            assert!(updated::<false>(&b[21..30], &c[21..30], 7, 58, r as u64) && others(&b, &c, 21, 30), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[29..38], 7, 59);
            assert!(s.get_raw_f59() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f59() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S7_5::new(&mut c[..]); m.set_f59(v); }
            assert!(updated::<false>(&b[29..38], &c[29..38], 7, 59, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 29, 38), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_5::new(&mut c[..]); m.set_raw_f59(r); }
            assert!(updated::<false>(&b[29..38], &c[29..38], 7, 59, r as u64) && others(&b, &c, 29, 38), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[37..46], 7, 60);
            assert!(s.get_raw_f60() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f60() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S7_5::new(&mut c[..]); m.set_f60(v); }
            assert!(updated::<false>(&b[37..46], &c[37..46], 7, 60, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 37, 46), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_5::new(&mut c[..]); m.set_raw_f60(r); }
            assert!(updated::<false>(&b[37..46], &c[37..46], 7, 60, r as u64) && others(&b, &c, 37, 46), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[45..54], 7, 61);
            assert!(s.get_raw_f61() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f61() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S7_5::new(&mut c[..]); m.set_f61(v); }
            assert!(updated::<false>(&b[45..54], &c[45..54], 7, 61, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 45, 54), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_5::new(&mut c[..]); m.set_raw_f61(r); }
            assert!(updated::<false>(&b[45..54], &c[45..54], 7, 61, r as u64) && others(&b, &c, 45, 54), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[53..62], 7, 62);
            assert!(s.get_raw_f62() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f62() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S7_5::new(&mut c[..]); m.set_f62(v); }
            assert!(updated::<false>(&b[53..62], &c[53..62], 7, 62, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 53, 62), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_5::new(&mut c[..]); m.set_raw_f62(r); }
            assert!(updated::<false>(&b[53..62], &c[53..62], 7, 62, r as u64) && others(&b, &c, 53, 62), "the raw setter replaces the bits of the field only");
        }
    }
}
#[cfg(feature = "ubet")]
mod ubet {
    use crate::spec::*;
    use bp3d_proto::util::FixedSize;
    #[kani::proof]
    fn o0_g0() {
        use crate::ubet::*;
        const N: usize = 12;
        assert!(<S0_0<()> as FixedSize>::SIZE == N && SIZE_S0_0 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S0_0::new(&b[..]);
        {
            let raw = field::<true>(&b[0..1], 0, 2);
            assert!(s.get_raw_f2() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f2() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S0_0::new(&mut c[..]); m.set_f2(v); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 0, 2, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_0::new(&mut c[..]); m.set_raw_f2(r); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 0, 2, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[1..2], 0, 4);
            assert!(s.get_raw_f4() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f4() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S0_0::new(&mut c[..]); m.set_f4(v); }
            assert!(updated::<true>(&b[1..2], &c[1..2], 0, 4, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_0::new(&mut c[..]); m.set_raw_f4(r); }
            assert!(updated::<true>(&b[1..2], &c[1..2], 0, 4, r as u64) && others(&b, &c, 1, 2), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[2..3], 0, 5);
            assert!(s.get_raw_f5() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f5() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S0_0::new(&mut c[..]); m.set_f5(v); }
            assert!(updated::<true>(&b[2..3], &c[2..3], 0, 5, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_0::new(&mut c[..]); m.set_raw_f5(r); }
            assert!(updated::<true>(&b[2..3], &c[2..3], 0, 5, r as u64) && others(&b, &c, 2, 3), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[3..4], 0, 6);
            assert!(s.get_raw_f6() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f6() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S0_0::new(&mut c[..]); m.set_f6(v); }
            assert!(updated::<true>(&b[3..4], &c[3..4], 0, 6, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_0::new(&mut c[..]); m.set_raw_f6(r); }
            assert!(updated::<true>(&b[3..4], &c[3..4], 0, 6, r as u64) && others(&b, &c, 3, 4), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[4..6], 0, 10);
            assert!(s.get_raw_f10() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f10() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S0_0::new(&mut c[..]); m.set_f10(v); }
            assert!(updated::<true>(&b[4..6], &c[4..6], 0, 10, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_0::new(&mut c[..]); m.set_raw_f10(r); }
            assert!(updated::<true>(&b[4..6], &c[4..6], 0, 10, r as u64) && others(&b, &c, 4, 6), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[6..8], 0, 11);
            assert!(s.get_raw_f11() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f11() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S0_0::new(&mut c[..]); m.set_f11(v); }
            assert!(updated::<true>(&b[6..8], &c[6..8], 0, 11, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_0::new(&mut c[..]); m.set_raw_f11(r); }
            assert!(updated::<true>(&b[6..8], &c[6..8], 0, 11, r as u64) && others(&b, &c, 6, 8), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[8..10], 0, 12);
            assert!(s.get_raw_f12() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f12() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S0_0::new(&mut c[..]); m.set_f12(v); }
            assert!(updated::<true>(&b[8..10], &c[8..10], 0, 12, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 8, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_0::new(&mut c[..]); m.set_raw_f12(r); }
            assert!(updated::<true>(&b[8..10], &c[8..10], 0, 12, r as u64) && others(&b, &c, 8, 10), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[10..12], 0, 13);
            assert!(s.get_raw_f13() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f13() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S0_0::new(&mut c[..]); m.set_f13(v); }
            assert!(updated::<true>(&b[10..12], &c[10..12], 0, 13, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 12), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_0::new(&mut c[..]); m.set_raw_f13(r); }
            assert!(updated::<true>(&b[10..12], &c[10..12], 0, 13, r as u64) && others(&b, &c, 10, 12), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o0_g1() {
        use crate::ubet::*;
        const N: usize = 22;
        assert!(<S0_1<()> as FixedSize>::SIZE == N && SIZE_S0_1 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S0_1::new(&b[..]);
        {
            let raw = field::<true>(&b[0..2], 0, 14);
            assert!(s.get_raw_f14() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f14() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S0_1::new(&mut c[..]); m.set_f14(v); }
            assert!(updated::<true>(&b[0..2], &c[0..2], 0, 14, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_1::new(&mut c[..]); m.set_raw_f14(r); }
            assert!(updated::<true>(&b[0..2], &c[0..2], 0, 14, r as u64) && others(&b, &c, 0, 2), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[2..4], 0, 15);
            assert!(s.get_raw_f15() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f15() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S0_1::new(&mut c[..]); m.set_f15(v); }
            assert!(updated::<true>(&b[2..4], &c[2..4], 0, 15, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_1::new(&mut c[..]); m.set_raw_f15(r); }
            assert!(updated::<true>(&b[2..4], &c[2..4], 0, 15, r as u64) && others(&b, &c, 2, 4), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[4..7], 0, 18);
            assert!(s.get_raw_f18() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f18() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S0_1::new(&mut c[..]); m.set_f18(v); }
            assert!(updated::<true>(&b[4..7], &c[4..7], 0, 18, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_1::new(&mut c[..]); m.set_raw_f18(r); }
            assert!(updated::<true>(&b[4..7], &c[4..7], 0, 18, r as u64) && others(&b, &c, 4, 7), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[7..10], 0, 19);
            assert!(s.get_raw_f19() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f19() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S0_1::new(&mut c[..]); m.set_f19(v); }
            assert!(updated::<true>(&b[7..10], &c[7..10], 0, 19, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_1::new(&mut c[..]); m.set_raw_f19(r); }
            assert!(updated::<true>(&b[7..10], &c[7..10], 0, 19, r as u64) && others(&b, &c, 7, 10), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[10..13], 0, 20);
            assert!(s.get_raw_f20() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f20() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S0_1::new(&mut c[..]); m.set_f20(v); }
            assert!(updated::<true>(&b[10..13], &c[10..13], 0, 20, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_1::new(&mut c[..]); m.set_raw_f20(r); }
            assert!(updated::<true>(&b[10..13], &c[10..13], 0, 20, r as u64) && others(&b, &c, 10, 13), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[13..16], 0, 21);
            assert!(s.get_raw_f21() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f21() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S0_1::new(&mut c[..]); m.set_f21(v); }
            assert!(updated::<true>(&b[13..16], &c[13..16], 0, 21, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 13, 16), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_1::new(&mut c[..]); m.set_raw_f21(r); }
            assert!(updated::<true>(&b[13..16], &c[13..16], 0, 21, r as u64) && others(&b, &c, 13, 16), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[16..19], 0, 22);
            assert!(s.get_raw_f22() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f22() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S0_1::new(&mut c[..]); m.set_f22(v); }
            assert!(updated::<true>(&b[16..19], &c[16..19], 0, 22, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_1::new(&mut c[..]); m.set_raw_f22(r); }
            assert!(updated::<true>(&b[16..19], &c[16..19], 0, 22, r as u64) && others(&b, &c, 16, 19), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[19..22], 0, 23);
            assert!(s.get_raw_f23() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f23() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S0_1::new(&mut c[..]); m.set_f23(v); }
            assert!(updated::<true>(&b[19..22], &c[19..22], 0, 23, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 19, 22), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_1::new(&mut c[..]); m.set_raw_f23(r); }
            assert!(updated::<true>(&b[19..22], &c[19..22], 0, 23, r as u64) && others(&b, &c, 19, 22), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o0_g2() {
        use crate::ubet::*;
        const N: usize = 34;
        assert!(<S0_2<()> as FixedSize>::SIZE == N && SIZE_S0_2 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S0_2::new(&b[..]);
        {
            let raw = field::<true>(&b[0..4], 0, 26);
            assert!(s.get_raw_f26() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f26() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S0_2::new(&mut c[..]); m.set_f26(v); }
            assert!(updated::<true>(&b[0..4], &c[0..4], 0, 26, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_2::new(&mut c[..]); m.set_raw_f26(r); }
            assert!(updated::<true>(&b[0..4], &c[0..4], 0, 26, r as u64) && others(&b, &c, 0, 4), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[4..8], 0, 27);
            assert!(s.get_raw_f27() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f27() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S0_2::new(&mut c[..]); m.set_f27(v); }
            assert!(updated::<true>(&b[4..8], &c[4..8], 0, 27, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_2::new(&mut c[..]); m.set_raw_f27(r); }
            assert!(updated::<true>(&b[4..8], &c[4..8], 0, 27, r as u64) && others(&b, &c, 4, 8), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[8..12], 0, 28);
            assert!(s.get_raw_f28() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f28() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S0_2::new(&mut c[..]); m.set_f28(v); }
            assert!(updated::<true>(&b[8..12], &c[8..12], 0, 28, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 8, 12), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_2::new(&mut c[..]); m.set_raw_f28(r); }
            assert!(updated::<true>(&b[8..12], &c[8..12], 0, 28, r as u64) && others(&b, &c, 8, 12), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[12..16], 0, 29);
            assert!(s.get_raw_f29() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f29() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S0_2::new(&mut c[..]); m.set_f29(v); }
            assert!(updated::<true>(&b[12..16], &c[12..16], 0, 29, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 16), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_2::new(&mut c[..]); m.set_raw_f29(r); }
            assert!(updated::<true>(&b[12..16], &c[12..16], 0, 29, r as u64) && others(&b, &c, 12, 16), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[16..20], 0, 30);
            assert!(s.get_raw_f30() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f30() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S0_2::new(&mut c[..]); m.set_f30(v); }
            assert!(updated::<true>(&b[16..20], &c[16..20], 0, 30, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_2::new(&mut c[..]); m.set_raw_f30(r); }
            assert!(updated::<true>(&b[16..20], &c[16..20], 0, 30, r as u64) && others(&b, &c, 16, 20), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[20..24], 0, 31);
            assert!(s.get_raw_f31() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f31() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S0_2::new(&mut c[..]); m.set_f31(v); }
            assert!(updated::<true>(&b[20..24], &c[20..24], 0, 31, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 24), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_2::new(&mut c[..]); m.set_raw_f31(r); }
            assert!(updated::<true>(&b[20..24], &c[20..24], 0, 31, r as u64) && others(&b, &c, 20, 24), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[24..29], 0, 34);
            assert!(s.get_raw_f34() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f34() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S0_2::new(&mut c[..]); m.set_f34(v); }
            assert!(updated::<true>(&b[24..29], &c[24..29], 0, 34, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 24, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_2::new(&mut c[..]); m.set_raw_f34(r); }
            assert!(updated::<true>(&b[24..29], &c[24..29], 0, 34, r as u64) && others(&b, &c, 24, 29), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[29..34], 0, 35);
            assert!(s.get_raw_f35() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f35() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S0_2::new(&mut c[..]); m.set_f35(v); }
            assert!(updated::<true>(&b[29..34], &c[29..34], 0, 35, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 29, 34), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_2::new(&mut c[..]); m.set_raw_f35(r); }
            assert!(updated::<true>(&b[29..34], &c[29..34], 0, 35, r as u64) && others(&b, &c, 29, 34), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o0_g3() {
        use crate::ubet::*;
        const N: usize = 44;
        assert!(<S0_3<()> as FixedSize>::SIZE == N && SIZE_S0_3 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S0_3::new(&b[..]);
        {
            let raw = field::<true>(&b[0..5], 0, 36);
            assert!(s.get_raw_f36() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f36() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S0_3::new(&mut c[..]); m.set_f36(v); }
            assert!(updated::<true>(&b[0..5], &c[0..5], 0, 36, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_3::new(&mut c[..]); m.set_raw_f36(r); }
            assert!(updated::<true>(&b[0..5], &c[0..5], 0, 36, r as u64) && others(&b, &c, 0, 5), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[5..10], 0, 37);
            assert!(s.get_raw_f37() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f37() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S0_3::new(&mut c[..]); m.set_f37(v); }
            assert!(updated::<true>(&b[5..10], &c[5..10], 0, 37, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_3::new(&mut c[..]); m.set_raw_f37(r); }
            assert!(updated::<true>(&b[5..10], &c[5..10], 0, 37, r as u64) && others(&b, &c, 5, 10), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[10..15], 0, 38);
            assert!(s.get_raw_f38() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f38() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S0_3::new(&mut c[..]); m.set_f38(v); }
            assert!(updated::<true>(&b[10..15], &c[10..15], 0, 38, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 15), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_3::new(&mut c[..]); m.set_raw_f38(r); }
            assert!(updated::<true>(&b[10..15], &c[10..15], 0, 38, r as u64) && others(&b, &c, 10, 15), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[15..20], 0, 39);
            assert!(s.get_raw_f39() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f39() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S0_3::new(&mut c[..]); m.set_f39(v); }
            assert!(updated::<true>(&b[15..20], &c[15..20], 0, 39, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 15, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_3::new(&mut c[..]); m.set_raw_f39(r); }
            assert!(updated::<true>(&b[15..20], &c[15..20], 0, 39, r as u64) && others(&b, &c, 15, 20), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[20..26], 0, 41);
            assert!(s.get_raw_f41() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f41() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S0_3::new(&mut c[..]); m.set_f41(v); }
            assert!(updated::<true>(&b[20..26], &c[20..26], 0, 41, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 26), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_3::new(&mut c[..]); m.set_raw_f41(r); }
            assert!(updated::<true>(&b[20..26], &c[20..26], 0, 41, r as u64) && others(&b, &c, 20, 26), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[26..32], 0, 42);
            assert!(s.get_raw_f42() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f42() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S0_3::new(&mut c[..]); m.set_f42(v); }
            assert!(updated::<true>(&b[26..32], &c[26..32], 0, 42, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 26, 32), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_3::new(&mut c[..]); m.set_raw_f42(r); }
            assert!(updated::<true>(&b[26..32], &c[26..32], 0, 42, r as u64) && others(&b, &c, 26, 32), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[32..38], 0, 43);
            assert!(s.get_raw_f43() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f43() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S0_3::new(&mut c[..]); m.set_f43(v); }
            assert!(updated::<true>(&b[32..38], &c[32..38], 0, 43, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 32, 38), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_3::new(&mut c[..]); m.set_raw_f43(r); }
            assert!(updated::<true>(&b[32..38], &c[32..38], 0, 43, r as u64) && others(&b, &c, 32, 38), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[38..44], 0, 44);
            assert!(s.get_raw_f44() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f44() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S0_3::new(&mut c[..]); m.set_f44(v); }
            assert!(updated::<true>(&b[38..44], &c[38..44], 0, 44, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 38, 44), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_3::new(&mut c[..]); m.set_raw_f44(r); }
            assert!(updated::<true>(&b[38..44], &c[38..44], 0, 44, r as u64) && others(&b, &c, 38, 44), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o0_g4() {
        use crate::ubet::*;
        const N: usize = 52;
        assert!(<S0_4<()> as FixedSize>::SIZE == N && SIZE_S0_4 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S0_4::new(&b[..]);
        {
            let raw = field::<true>(&b[0..6], 0, 45);
            assert!(s.get_raw_f45() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f45() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S0_4::new(&mut c[..]); m.set_f45(v); }
            assert!(updated::<true>(&b[0..6], &c[0..6], 0, 45, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_4::new(&mut c[..]); m.set_raw_f45(r); }
            assert!(updated::<true>(&b[0..6], &c[0..6], 0, 45, r as u64) && others(&b, &c, 0, 6), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[6..12], 0, 46);
            assert!(s.get_raw_f46() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f46() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S0_4::new(&mut c[..]); m.set_f46(v); }
            assert!(updated::<true>(&b[6..12], &c[6..12], 0, 46, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 12), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_4::new(&mut c[..]); m.set_raw_f46(r); }
            assert!(updated::<true>(&b[6..12], &c[6..12], 0, 46, r as u64) && others(&b, &c, 6, 12), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[12..18], 0, 47);
            assert!(s.get_raw_f47() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f47() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S0_4::new(&mut c[..]); m.set_f47(v); }
            assert!(updated::<true>(&b[12..18], &c[12..18], 0, 47, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 18), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_4::new(&mut c[..]); m.set_raw_f47(r); }
            assert!(updated::<true>(&b[12..18], &c[12..18], 0, 47, r as u64) && others(&b, &c, 12, 18), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[18..24], 0, 48);
            assert!(s.get_raw_f48() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f48() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S0_4::new(&mut c[..]); m.set_f48(v); }
            assert!(updated::<true>(&b[18..24], &c[18..24], 0, 48, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 18, 24), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_4::new(&mut c[..]); m.set_raw_f48(r); }
            assert!(updated::<true>(&b[18..24], &c[18..24], 0, 48, r as u64) && others(&b, &c, 18, 24), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[24..31], 0, 49);
            assert!(s.get_raw_f49() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f49() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S0_4::new(&mut c[..]); m.set_f49(v); }
            assert!(updated::<true>(&b[24..31], &c[24..31], 0, 49, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 24, 31), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_4::new(&mut c[..]); m.set_raw_f49(r); }
            assert!(updated::<true>(&b[24..31], &c[24..31], 0, 49, r as u64) && others(&b, &c, 24, 31), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[31..38], 0, 50);
            assert!(s.get_raw_f50() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f50() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S0_4::new(&mut c[..]); m.set_f50(v); }
            assert!(updated::<true>(&b[31..38], &c[31..38], 0, 50, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 31, 38), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_4::new(&mut c[..]); m.set_raw_f50(r); }
            assert!(updated::<true>(&b[31..38], &c[31..38], 0, 50, r as u64) && others(&b, &c, 31, 38), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[38..45], 0, 51);
            assert!(s.get_raw_f51() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f51() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S0_4::new(&mut c[..]); m.set_f51(v); }
            assert!(updated::<true>(&b[38..45], &c[38..45], 0, 51, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 38, 45), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_4::new(&mut c[..]); m.set_raw_f51(r); }
            assert!(updated::<true>(&b[38..45], &c[38..45], 0, 51, r as u64) && others(&b, &c, 38, 45), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[45..52], 0, 52);
            assert!(s.get_raw_f52() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f52() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S0_4::new(&mut c[..]); m.set_f52(v); }
            assert!(updated::<true>(&b[45..52], &c[45..52], 0, 52, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 45, 52), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_4::new(&mut c[..]); m.set_raw_f52(r); }
            assert!(updated::<true>(&b[45..52], &c[45..52], 0, 52, r as u64) && others(&b, &c, 45, 52), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o0_g5() {
        use crate::ubet::*;
        const N: usize = 61;
        assert!(<S0_5<()> as FixedSize>::SIZE == N && SIZE_S0_5 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S0_5::new(&b[..]);
        {
            let raw = field::<true>(&b[0..7], 0, 53);
            assert!(s.get_raw_f53() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f53() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S0_5::new(&mut c[..]); m.set_f53(v); }
            assert!(updated::<true>(&b[0..7], &c[0..7], 0, 53, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_5::new(&mut c[..]); m.set_raw_f53(r); }
            assert!(updated::<true>(&b[0..7], &c[0..7], 0, 53, r as u64) && others(&b, &c, 0, 7), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[7..14], 0, 54);
            assert!(s.get_raw_f54() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f54() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S0_5::new(&mut c[..]); m.set_f54(v); }
            assert!(updated::<true>(&b[7..14], &c[7..14], 0, 54, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 14), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_5::new(&mut c[..]); m.set_raw_f54(r); }
            assert!(updated::<true>(&b[7..14], &c[7..14], 0, 54, r as u64) && others(&b, &c, 7, 14), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[14..21], 0, 55);
            assert!(s.get_raw_f55() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f55() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S0_5::new(&mut c[..]); m.set_f55(v); }
            assert!(updated::<true>(&b[14..21], &c[14..21], 0, 55, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 14, 21), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_5::new(&mut c[..]); m.set_raw_f55(r); }
            assert!(updated::<true>(&b[14..21], &c[14..21], 0, 55, r as u64) && others(&b, &c, 14, 21), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[21..29], 0, 58);
            assert!(s.get_raw_f58() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f58() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S0_5::new(&mut c[..]); m.set_f58(v); }
            assert!(updated::<true>(&b[21..29], &c[21..29], 0, 58, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 21, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_5::new(&mut c[..]); m.set_raw_f58(r); }
            assert!(updated::<true>(&b[21..29], &c[21..29], 0, 58, r as u64) && others(&b, &c, 21, 29), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[29..37], 0, 59);
            assert!(s.get_raw_f59() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f59() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S0_5::new(&mut c[..]); m.set_f59(v); }
            assert!(updated::<true>(&b[29..37], &c[29..37], 0, 59, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 29, 37), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_5::new(&mut c[..]); m.set_raw_f59(r); }
            assert!(updated::<true>(&b[29..37], &c[29..37], 0, 59, r as u64) && others(&b, &c, 29, 37), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[37..45], 0, 60);
            assert!(s.get_raw_f60() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f60() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S0_5::new(&mut c[..]); m.set_f60(v); }
            assert!(updated::<true>(&b[37..45], &c[37..45], 0, 60, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 37, 45), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_5::new(&mut c[..]); m.set_raw_f60(r); }
            assert!(updated::<true>(&b[37..45], &c[37..45], 0, 60, r as u64) && others(&b, &c, 37, 45), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[45..53], 0, 61);
            assert!(s.get_raw_f61() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f61() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S0_5::new(&mut c[..]); m.set_f61(v); }
            assert!(updated::<true>(&b[45..53], &c[45..53], 0, 61, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 45, 53), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_5::new(&mut c[..]); m.set_raw_f61(r); }
            assert!(updated::<true>(&b[45..53], &c[45..53], 0, 61, r as u64) && others(&b, &c, 45, 53), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[53..61], 0, 62);
            assert!(s.get_raw_f62() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f62() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S0_5::new(&mut c[..]); m.set_f62(v); }
            assert!(updated::<true>(&b[53..61], &c[53..61], 0, 62, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 53, 61), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_5::new(&mut c[..]); m.set_raw_f62(r); }
            assert!(updated::<true>(&b[53..61], &c[53..61], 0, 62, r as u64) && others(&b, &c, 53, 61), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o1_g0() {
        use crate::ubet::*;
        const N: usize = 12;
        assert!(<S1_0<()> as FixedSize>::SIZE == N && SIZE_S1_0 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S1_0::new(&b[..]);
        {
            let raw = field::<true>(&b[0..1], 1, 2);
            assert!(s.get_raw_f2() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f2() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S1_0::new(&mut c[..]); m.set_f2(v); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 1, 2, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_0::new(&mut c[..]); m.set_raw_f2(r); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 1, 2, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[1..2], 1, 4);
            assert!(s.get_raw_f4() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f4() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S1_0::new(&mut c[..]); m.set_f4(v); }
            assert!(updated::<true>(&b[1..2], &c[1..2], 1, 4, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_0::new(&mut c[..]); m.set_raw_f4(r); }
            assert!(updated::<true>(&b[1..2], &c[1..2], 1, 4, r as u64) && others(&b, &c, 1, 2), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[2..3], 1, 5);
            assert!(s.get_raw_f5() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f5() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S1_0::new(&mut c[..]); m.set_f5(v); }
            assert!(updated::<true>(&b[2..3], &c[2..3], 1, 5, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_0::new(&mut c[..]); m.set_raw_f5(r); }
            assert!(updated::<true>(&b[2..3], &c[2..3], 1, 5, r as u64) && others(&b, &c, 2, 3), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[3..4], 1, 6);
            assert!(s.get_raw_f6() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f6() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S1_0::new(&mut c[..]); m.set_f6(v); }
            assert!(updated::<true>(&b[3..4], &c[3..4], 1, 6, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_0::new(&mut c[..]); m.set_raw_f6(r); }
            assert!(updated::<true>(&b[3..4], &c[3..4], 1, 6, r as u64) && others(&b, &c, 3, 4), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[4..6], 1, 10);
            assert!(s.get_raw_f10() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f10() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S1_0::new(&mut c[..]); m.set_f10(v); }
            assert!(updated::<true>(&b[4..6], &c[4..6], 1, 10, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_0::new(&mut c[..]); m.set_raw_f10(r); }
            assert!(updated::<true>(&b[4..6], &c[4..6], 1, 10, r as u64) && others(&b, &c, 4, 6), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[6..8], 1, 11);
            assert!(s.get_raw_f11() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f11() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S1_0::new(&mut c[..]); m.set_f11(v); }
            assert!(updated::<true>(&b[6..8], &c[6..8], 1, 11, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_0::new(&mut c[..]); m.set_raw_f11(r); }
            assert!(updated::<true>(&b[6..8], &c[6..8], 1, 11, r as u64) && others(&b, &c, 6, 8), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[8..10], 1, 12);
            assert!(s.get_raw_f12() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f12() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S1_0::new(&mut c[..]); m.set_f12(v); }
            assert!(updated::<true>(&b[8..10], &c[8..10], 1, 12, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 8, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_0::new(&mut c[..]); m.set_raw_f12(r); }
            assert!(updated::<true>(&b[8..10], &c[8..10], 1, 12, r as u64) && others(&b, &c, 8, 10), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[10..12], 1, 13);
            assert!(s.get_raw_f13() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f13() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S1_0::new(&mut c[..]); m.set_f13(v); }
            assert!(updated::<true>(&b[10..12], &c[10..12], 1, 13, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 12), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_0::new(&mut c[..]); m.set_raw_f13(r); }
            assert!(updated::<true>(&b[10..12], &c[10..12], 1, 13, r as u64) && others(&b, &c, 10, 12), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o1_g1() {
        use crate::ubet::*;
        const N: usize = 22;
        assert!(<S1_1<()> as FixedSize>::SIZE == N && SIZE_S1_1 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S1_1::new(&b[..]);
        {
            let raw = field::<true>(&b[0..2], 1, 14);
            assert!(s.get_raw_f14() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f14() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S1_1::new(&mut c[..]); m.set_f14(v); }
            assert!(updated::<true>(&b[0..2], &c[0..2], 1, 14, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_1::new(&mut c[..]); m.set_raw_f14(r); }
            assert!(updated::<true>(&b[0..2], &c[0..2], 1, 14, r as u64) && others(&b, &c, 0, 2), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[2..4], 1, 15);
            assert!(s.get_raw_f15() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f15() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S1_1::new(&mut c[..]); m.set_f15(v); }
            assert!(updated::<true>(&b[2..4], &c[2..4], 1, 15, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_1::new(&mut c[..]); m.set_raw_f15(r); }
            assert!(updated::<true>(&b[2..4], &c[2..4], 1, 15, r as u64) && others(&b, &c, 2, 4), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[4..7], 1, 18);
            assert!(s.get_raw_f18() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f18() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S1_1::new(&mut c[..]); m.set_f18(v); }
            assert!(updated::<true>(&b[4..7], &c[4..7], 1, 18, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_1::new(&mut c[..]); m.set_raw_f18(r); }
            assert!(updated::<true>(&b[4..7], &c[4..7], 1, 18, r as u64) && others(&b, &c, 4, 7), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[7..10], 1, 19);
            assert!(s.get_raw_f19() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f19() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S1_1::new(&mut c[..]); m.set_f19(v); }
            assert!(updated::<true>(&b[7..10], &c[7..10], 1, 19, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_1::new(&mut c[..]); m.set_raw_f19(r); }
            assert!(updated::<true>(&b[7..10], &c[7..10], 1, 19, r as u64) && others(&b, &c, 7, 10), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[10..13], 1, 20);
            assert!(s.get_raw_f20() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f20() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S1_1::new(&mut c[..]); m.set_f20(v); }
            assert!(updated::<true>(&b[10..13], &c[10..13], 1, 20, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_1::new(&mut c[..]); m.set_raw_f20(r); }
            assert!(updated::<true>(&b[10..13], &c[10..13], 1, 20, r as u64) && others(&b, &c, 10, 13), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[13..16], 1, 21);
            assert!(s.get_raw_f21() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f21() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S1_1::new(&mut c[..]); m.set_f21(v); }
            assert!(updated::<true>(&b[13..16], &c[13..16], 1, 21, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 13, 16), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_1::new(&mut c[..]); m.set_raw_f21(r); }
            assert!(updated::<true>(&b[13..16], &c[13..16], 1, 21, r as u64) && others(&b, &c, 13, 16), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[16..19], 1, 22);
            assert!(s.get_raw_f22() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f22() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S1_1::new(&mut c[..]); m.set_f22(v); }
            assert!(updated::<true>(&b[16..19], &c[16..19], 1, 22, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_1::new(&mut c[..]); m.set_raw_f22(r); }
            assert!(updated::<true>(&b[16..19], &c[16..19], 1, 22, r as u64) && others(&b, &c, 16, 19), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[19..22], 1, 23);
            assert!(s.get_raw_f23() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f23() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S1_1::new(&mut c[..]); m.set_f23(v); }
            assert!(updated::<true>(&b[19..22], &c[19..22], 1, 23, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 19, 22), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_1::new(&mut c[..]); m.set_raw_f23(r); }
            assert!(updated::<true>(&b[19..22], &c[19..22], 1, 23, r as u64) && others(&b, &c, 19, 22), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o1_g2() {
        use crate::ubet::*;
        const N: usize = 34;
        assert!(<S1_2<()> as FixedSize>::SIZE == N && SIZE_S1_2 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S1_2::new(&b[..]);
        {
            let raw = field::<true>(&b[0..4], 1, 26);
            assert!(s.get_raw_f26() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f26() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S1_2::new(&mut c[..]); m.set_f26(v); }
            assert!(updated::<true>(&b[0..4], &c[0..4], 1, 26, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_2::new(&mut c[..]); m.set_raw_f26(r); }
            assert!(updated::<true>(&b[0..4], &c[0..4], 1, 26, r as u64) && others(&b, &c, 0, 4), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[4..8], 1, 27);
            assert!(s.get_raw_f27() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f27() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S1_2::new(&mut c[..]); m.set_f27(v); }
            assert!(updated::<true>(&b[4..8], &c[4..8], 1, 27, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_2::new(&mut c[..]); m.set_raw_f27(r); }
            assert!(updated::<true>(&b[4..8], &c[4..8], 1, 27, r as u64) && others(&b, &c, 4, 8), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[8..12], 1, 28);
            assert!(s.get_raw_f28() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f28() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S1_2::new(&mut c[..]); m.set_f28(v); }
            assert!(updated::<true>(&b[8..12], &c[8..12], 1, 28, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 8, 12), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_2::new(&mut c[..]); m.set_raw_f28(r); }
            assert!(updated::<true>(&b[8..12], &c[8..12], 1, 28, r as u64) && others(&b, &c, 8, 12), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[12..16], 1, 29);
            assert!(s.get_raw_f29() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f29() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S1_2::new(&mut c[..]); m.set_f29(v); }
            assert!(updated::<true>(&b[12..16], &c[12..16], 1, 29, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 16), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_2::new(&mut c[..]); m.set_raw_f29(r); }
            assert!(updated::<true>(&b[12..16], &c[12..16], 1, 29, r as u64) && others(&b, &c, 12, 16), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[16..20], 1, 30);
            assert!(s.get_raw_f30() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f30() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S1_2::new(&mut c[..]); m.set_f30(v); }
            assert!(updated::<true>(&b[16..20], &c[16..20], 1, 30, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_2::new(&mut c[..]); m.set_raw_f30(r); }
            assert!(updated::<true>(&b[16..20], &c[16..20], 1, 30, r as u64) && others(&b, &c, 16, 20), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[20..24], 1, 31);
            assert!(s.get_raw_f31() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f31() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S1_2::new(&mut c[..]); m.set_f31(v); }
            assert!(updated::<true>(&b[20..24], &c[20..24], 1, 31, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 24), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_2::new(&mut c[..]); m.set_raw_f31(r); }
            assert!(updated::<true>(&b[20..24], &c[20..24], 1, 31, r as u64) && others(&b, &c, 20, 24), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[24..29], 1, 34);
            assert!(s.get_raw_f34() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f34() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S1_2::new(&mut c[..]); m.set_f34(v); }
            assert!(updated::<true>(&b[24..29], &c[24..29], 1, 34, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 24, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_2::new(&mut c[..]); m.set_raw_f34(r); }
            assert!(updated::<true>(&b[24..29], &c[24..29], 1, 34, r as u64) && others(&b, &c, 24, 29), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[29..34], 1, 35);
            assert!(s.get_raw_f35() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f35() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S1_2::new(&mut c[..]); m.set_f35(v); }
            assert!(updated::<true>(&b[29..34], &c[29..34], 1, 35, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 29, 34), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_2::new(&mut c[..]); m.set_raw_f35(r); }
            assert!(updated::<true>(&b[29..34], &c[29..34], 1, 35, r as u64) && others(&b, &c, 29, 34), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o1_g3() {
        use crate::ubet::*;
        const N: usize = 44;
        assert!(<S1_3<()> as FixedSize>::SIZE == N && SIZE_S1_3 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S1_3::new(&b[..]);
        {
            let raw = field::<true>(&b[0..5], 1, 36);
            assert!(s.get_raw_f36() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f36() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S1_3::new(&mut c[..]); m.set_f36(v); }
            assert!(updated::<true>(&b[0..5], &c[0..5], 1, 36, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_3::new(&mut c[..]); m.set_raw_f36(r); }
            assert!(updated::<true>(&b[0..5], &c[0..5], 1, 36, r as u64) && others(&b, &c, 0, 5), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[5..10], 1, 37);
            assert!(s.get_raw_f37() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f37() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S1_3::new(&mut c[..]); m.set_f37(v); }
            assert!(updated::<true>(&b[5..10], &c[5..10], 1, 37, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_3::new(&mut c[..]); m.set_raw_f37(r); }
            assert!(updated::<true>(&b[5..10], &c[5..10], 1, 37, r as u64) && others(&b, &c, 5, 10), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[10..15], 1, 38);
            assert!(s.get_raw_f38() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f38() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S1_3::new(&mut c[..]); m.set_f38(v); }
            assert!(updated::<true>(&b[10..15], &c[10..15], 1, 38, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 15), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_3::new(&mut c[..]); m.set_raw_f38(r); }
            assert!(updated::<true>(&b[10..15], &c[10..15], 1, 38, r as u64) && others(&b, &c, 10, 15), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[15..20], 1, 39);
            assert!(s.get_raw_f39() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f39() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S1_3::new(&mut c[..]); m.set_f39(v); }
            assert!(updated::<true>(&b[15..20], &c[15..20], 1, 39, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 15, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_3::new(&mut c[..]); m.set_raw_f39(r); }
            assert!(updated::<true>(&b[15..20], &c[15..20], 1, 39, r as u64) && others(&b, &c, 15, 20), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[20..26], 1, 41);
            assert!(s.get_raw_f41() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f41() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S1_3::new(&mut c[..]); m.set_f41(v); }
            assert!(updated::<true>(&b[20..26], &c[20..26], 1, 41, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 26), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_3::new(&mut c[..]); m.set_raw_f41(r); }
            assert!(updated::<true>(&b[20..26], &c[20..26], 1, 41, r as u64) && others(&b, &c, 20, 26), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[26..32], 1, 42);
            assert!(s.get_raw_f42() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f42() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S1_3::new(&mut c[..]); m.set_f42(v); }
            assert!(updated::<true>(&b[26..32], &c[26..32], 1, 42, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 26, 32), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_3::new(&mut c[..]); m.set_raw_f42(r); }
            assert!(updated::<true>(&b[26..32], &c[26..32], 1, 42, r as u64) && others(&b, &c, 26, 32), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[32..38], 1, 43);
            assert!(s.get_raw_f43() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f43() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S1_3::new(&mut c[..]); m.set_f43(v); }
            assert!(updated::<true>(&b[32..38], &c[32..38], 1, 43, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 32, 38), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_3::new(&mut c[..]); m.set_raw_f43(r); }
            assert!(updated::<true>(&b[32..38], &c[32..38], 1, 43, r as u64) && others(&b, &c, 32, 38), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[38..44], 1, 44);
            assert!(s.get_raw_f44() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f44() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S1_3::new(&mut c[..]); m.set_f44(v); }
            assert!(updated::<true>(&b[38..44], &c[38..44], 1, 44, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 38, 44), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_3::new(&mut c[..]); m.set_raw_f44(r); }
            assert!(updated::<true>(&b[38..44], &c[38..44], 1, 44, r as u64) && others(&b, &c, 38, 44), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o1_g4() {
        use crate::ubet::*;
        const N: usize = 52;
        assert!(<S1_4<()> as FixedSize>::SIZE == N && SIZE_S1_4 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S1_4::new(&b[..]);
        {
            let raw = field::<true>(&b[0..6], 1, 45);
            assert!(s.get_raw_f45() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f45() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S1_4::new(&mut c[..]); m.set_f45(v); }
            assert!(updated::<true>(&b[0..6], &c[0..6], 1, 45, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_4::new(&mut c[..]); m.set_raw_f45(r); }
            assert!(updated::<true>(&b[0..6], &c[0..6], 1, 45, r as u64) && others(&b, &c, 0, 6), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[6..12], 1, 46);
            assert!(s.get_raw_f46() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f46() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S1_4::new(&mut c[..]); m.set_f46(v); }
            assert!(updated::<true>(&b[6..12], &c[6..12], 1, 46, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 12), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_4::new(&mut c[..]); m.set_raw_f46(r); }
            assert!(updated::<true>(&b[6..12], &c[6..12], 1, 46, r as u64) && others(&b, &c, 6, 12), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[12..18], 1, 47);
            assert!(s.get_raw_f47() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f47() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S1_4::new(&mut c[..]); m.set_f47(v); }
            assert!(updated::<true>(&b[12..18], &c[12..18], 1, 47, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 18), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_4::new(&mut c[..]); m.set_raw_f47(r); }
            assert!(updated::<true>(&b[12..18], &c[12..18], 1, 47, r as u64) && others(&b, &c, 12, 18), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[18..25], 1, 48);
            assert!(s.get_raw_f48() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f48() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S1_4::new(&mut c[..]); m.set_f48(v); }
            assert!(updated::<true>(&b[18..25], &c[18..25], 1, 48, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 18, 25), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_4::new(&mut c[..]); m.set_raw_f48(r); }
            assert!(updated::<true>(&b[18..25], &c[18..25], 1, 48, r as u64) && others(&b, &c, 18, 25), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[24..31], 1, 49);
            assert!(s.get_raw_f49() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f49() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S1_4::new(&mut c[..]); m.set_f49(v); }
            assert!(updated::<true>(&b[24..31], &c[24..31], 1, 49, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 24, 31), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_4::new(&mut c[..]); m.set_raw_f49(r); }
            assert!(updated::<true>(&b[24..31], &c[24..31], 1, 49, r as u64) && others(&b, &c, 24, 31), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[31..38], 1, 50);
            assert!(s.get_raw_f50() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f50() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S1_4::new(&mut c[..]); m.set_f50(v); }
            assert!(updated::<true>(&b[31..38], &c[31..38], 1, 50, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 31, 38), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_4::new(&mut c[..]); m.set_raw_f50(r); }
            assert!(updated::<true>(&b[31..38], &c[31..38], 1, 50, r as u64) && others(&b, &c, 31, 38), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[38..45], 1, 51);
            assert!(s.get_raw_f51() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f51() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S1_4::new(&mut c[..]); m.set_f51(v); }
            assert!(updated::<true>(&b[38..45], &c[38..45], 1, 51, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 38, 45), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_4::new(&mut c[..]); m.set_raw_f51(r); }
            assert!(updated::<true>(&b[38..45], &c[38..45], 1, 51, r as u64) && others(&b, &c, 38, 45), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[45..52], 1, 52);
            assert!(s.get_raw_f52() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f52() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S1_4::new(&mut c[..]); m.set_f52(v); }
            assert!(updated::<true>(&b[45..52], &c[45..52], 1, 52, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 45, 52), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_4::new(&mut c[..]); m.set_raw_f52(r); }
            assert!(updated::<true>(&b[45..52], &c[45..52], 1, 52, r as u64) && others(&b, &c, 45, 52), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o1_g5() {
        use crate::ubet::*;
        const N: usize = 61;
        assert!(<S1_5<()> as FixedSize>::SIZE == N && SIZE_S1_5 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S1_5::new(&b[..]);
        {
            let raw = field::<true>(&b[0..7], 1, 53);
            assert!(s.get_raw_f53() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f53() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S1_5::new(&mut c[..]); m.set_f53(v); }
            assert!(updated::<true>(&b[0..7], &c[0..7], 1, 53, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_5::new(&mut c[..]); m.set_raw_f53(r); }
            assert!(updated::<true>(&b[0..7], &c[0..7], 1, 53, r as u64) && others(&b, &c, 0, 7), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[7..14], 1, 54);
            assert!(s.get_raw_f54() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f54() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S1_5::new(&mut c[..]); m.set_f54(v); }
            assert!(updated::<true>(&b[7..14], &c[7..14], 1, 54, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 14), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_5::new(&mut c[..]); m.set_raw_f54(r); }
            assert!(updated::<true>(&b[7..14], &c[7..14], 1, 54, r as u64) && others(&b, &c, 7, 14), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[14..21], 1, 55);
            assert!(s.get_raw_f55() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f55() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S1_5::new(&mut c[..]); m.set_f55(v); }
            assert!(updated::<true>(&b[14..21], &c[14..21], 1, 55, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 14, 21), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_5::new(&mut c[..]); m.set_raw_f55(r); }
            assert!(updated::<true>(&b[14..21], &c[14..21], 1, 55, r as u64) && others(&b, &c, 14, 21), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[21..29], 1, 58);
            assert!(s.get_raw_f58() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f58() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S1_5::new(&mut c[..]); m.set_f58(v); }
            assert!(updated::<true>(&b[21..29], &c[21..29], 1, 58, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 21, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_5::new(&mut c[..]); m.set_raw_f58(r); }
            assert!(updated::<true>(&b[21..29], &c[21..29], 1, 58, r as u64) && others(&b, &c, 21, 29), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[29..37], 1, 59);
            assert!(s.get_raw_f59() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f59() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S1_5::new(&mut c[..]); m.set_f59(v); }
            assert!(updated::<true>(&b[29..37], &c[29..37], 1, 59, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 29, 37), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_5::new(&mut c[..]); m.set_raw_f59(r); }
            assert!(updated::<true>(&b[29..37], &c[29..37], 1, 59, r as u64) && others(&b, &c, 29, 37), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[37..45], 1, 60);
            assert!(s.get_raw_f60() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f60() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S1_5::new(&mut c[..]); m.set_f60(v); }
            assert!(updated::<true>(&b[37..45], &c[37..45], 1, 60, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 37, 45), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_5::new(&mut c[..]); m.set_raw_f60(r); }
            assert!(updated::<true>(&b[37..45], &c[37..45], 1, 60, r as u64) && others(&b, &c, 37, 45), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[45..53], 1, 61);
            assert!(s.get_raw_f61() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f61() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S1_5::new(&mut c[..]); m.set_f61(v); }
            assert!(updated::<true>(&b[45..53], &c[45..53], 1, 61, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 45, 53), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_5::new(&mut c[..]); m.set_raw_f61(r); }
            assert!(updated::<true>(&b[45..53], &c[45..53], 1, 61, r as u64) && others(&b, &c, 45, 53), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[53..61], 1, 62);
            assert!(s.get_raw_f62() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f62() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S1_5::new(&mut c[..]); m.set_f62(v); }
            assert!(updated::<true>(&b[53..61], &c[53..61], 1, 62, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 53, 61), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_5::new(&mut c[..]); m.set_raw_f62(r); }
            assert!(updated::<true>(&b[53..61], &c[53..61], 1, 62, r as u64) && others(&b, &c, 53, 61), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o2_g0() {
        use crate::ubet::*;
        const N: usize = 12;
        assert!(<S2_0<()> as FixedSize>::SIZE == N && SIZE_S2_0 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S2_0::new(&b[..]);
        {
            let raw = field::<true>(&b[0..1], 2, 2);
            assert!(s.get_raw_f2() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f2() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S2_0::new(&mut c[..]); m.set_f2(v); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 2, 2, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_0::new(&mut c[..]); m.set_raw_f2(r); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 2, 2, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[1..2], 2, 4);
            assert!(s.get_raw_f4() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f4() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S2_0::new(&mut c[..]); m.set_f4(v); }
            assert!(updated::<true>(&b[1..2], &c[1..2], 2, 4, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_0::new(&mut c[..]); m.set_raw_f4(r); }
            assert!(updated::<true>(&b[1..2], &c[1..2], 2, 4, r as u64) && others(&b, &c, 1, 2), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[2..3], 2, 5);
            assert!(s.get_raw_f5() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f5() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S2_0::new(&mut c[..]); m.set_f5(v); }
            assert!(updated::<true>(&b[2..3], &c[2..3], 2, 5, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_0::new(&mut c[..]); m.set_raw_f5(r); }
            assert!(updated::<true>(&b[2..3], &c[2..3], 2, 5, r as u64) && others(&b, &c, 2, 3), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[3..4], 2, 6);
            assert!(s.get_raw_f6() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f6() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S2_0::new(&mut c[..]); m.set_f6(v); }
            assert!(updated::<true>(&b[3..4], &c[3..4], 2, 6, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_0::new(&mut c[..]); m.set_raw_f6(r); }
            assert!(updated::<true>(&b[3..4], &c[3..4], 2, 6, r as u64) && others(&b, &c, 3, 4), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[4..6], 2, 10);
            assert!(s.get_raw_f10() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f10() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S2_0::new(&mut c[..]); m.set_f10(v); }
            assert!(updated::<true>(&b[4..6], &c[4..6], 2, 10, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_0::new(&mut c[..]); m.set_raw_f10(r); }
            assert!(updated::<true>(&b[4..6], &c[4..6], 2, 10, r as u64) && others(&b, &c, 4, 6), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[6..8], 2, 11);
            assert!(s.get_raw_f11() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f11() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S2_0::new(&mut c[..]); m.set_f11(v); }
            assert!(updated::<true>(&b[6..8], &c[6..8], 2, 11, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_0::new(&mut c[..]); m.set_raw_f11(r); }
            assert!(updated::<true>(&b[6..8], &c[6..8], 2, 11, r as u64) && others(&b, &c, 6, 8), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[8..10], 2, 12);
            assert!(s.get_raw_f12() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f12() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S2_0::new(&mut c[..]); m.set_f12(v); }
            assert!(updated::<true>(&b[8..10], &c[8..10], 2, 12, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 8, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_0::new(&mut c[..]); m.set_raw_f12(r); }
            assert!(updated::<true>(&b[8..10], &c[8..10], 2, 12, r as u64) && others(&b, &c, 8, 10), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[10..12], 2, 13);
            assert!(s.get_raw_f13() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f13() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S2_0::new(&mut c[..]); m.set_f13(v); }
            assert!(updated::<true>(&b[10..12], &c[10..12], 2, 13, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 12), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_0::new(&mut c[..]); m.set_raw_f13(r); }
            assert!(updated::<true>(&b[10..12], &c[10..12], 2, 13, r as u64) && others(&b, &c, 10, 12), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o2_g1() {
        use crate::ubet::*;
        const N: usize = 23;
        assert!(<S2_1<()> as FixedSize>::SIZE == N && SIZE_S2_1 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S2_1::new(&b[..]);
        {
            let raw = field::<true>(&b[0..2], 2, 14);
            assert!(s.get_raw_f14() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f14() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S2_1::new(&mut c[..]); m.set_f14(v); }
            assert!(updated::<true>(&b[0..2], &c[0..2], 2, 14, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_1::new(&mut c[..]); m.set_raw_f14(r); }
            assert!(updated::<true>(&b[0..2], &c[0..2], 2, 14, r as u64) && others(&b, &c, 0, 2), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[2..5], 2, 15);
            assert!(s.get_raw_f15() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f15() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S2_1::new(&mut c[..]); m.set_f15(v); }
            assert!(updated::<true>(&b[2..5], &c[2..5], 2, 15, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_1::new(&mut c[..]); m.set_raw_f15(r); }
            assert!(updated::<true>(&b[2..5], &c[2..5], 2, 15, r as u64) && others(&b, &c, 2, 5), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[4..7], 2, 18);
            assert!(s.get_raw_f18() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f18() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S2_1::new(&mut c[..]); m.set_f18(v); }
            assert!(updated::<true>(&b[4..7], &c[4..7], 2, 18, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_1::new(&mut c[..]); m.set_raw_f18(r); }
            assert!(updated::<true>(&b[4..7], &c[4..7], 2, 18, r as u64) && others(&b, &c, 4, 7), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[7..10], 2, 19);
            assert!(s.get_raw_f19() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f19() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S2_1::new(&mut c[..]); m.set_f19(v); }
            assert!(updated::<true>(&b[7..10], &c[7..10], 2, 19, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_1::new(&mut c[..]); m.set_raw_f19(r); }
            assert!(updated::<true>(&b[7..10], &c[7..10], 2, 19, r as u64) && others(&b, &c, 7, 10), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[10..13], 2, 20);
            assert!(s.get_raw_f20() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f20() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S2_1::new(&mut c[..]); m.set_f20(v); }
            assert!(updated::<true>(&b[10..13], &c[10..13], 2, 20, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_1::new(&mut c[..]); m.set_raw_f20(r); }
            assert!(updated::<true>(&b[10..13], &c[10..13], 2, 20, r as u64) && others(&b, &c, 10, 13), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[13..16], 2, 21);
            assert!(s.get_raw_f21() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f21() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S2_1::new(&mut c[..]); m.set_f21(v); }
            assert!(updated::<true>(&b[13..16], &c[13..16], 2, 21, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 13, 16), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_1::new(&mut c[..]); m.set_raw_f21(r); }
            assert!(updated::<true>(&b[13..16], &c[13..16], 2, 21, r as u64) && others(&b, &c, 13, 16), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[16..19], 2, 22);
            assert!(s.get_raw_f22() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f22() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S2_1::new(&mut c[..]); m.set_f22(v); }
            assert!(updated::<true>(&b[16..19], &c[16..19], 2, 22, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_1::new(&mut c[..]); m.set_raw_f22(r); }
            assert!(updated::<true>(&b[16..19], &c[16..19], 2, 22, r as u64) && others(&b, &c, 16, 19), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[19..23], 2, 23);
            assert!(s.get_raw_f23() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f23() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S2_1::new(&mut c[..]); m.set_f23(v); }
            assert!(updated::<true>(&b[19..23], &c[19..23], 2, 23, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 19, 23), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_1::new(&mut c[..]); m.set_raw_f23(r); }
            assert!(updated::<true>(&b[19..23], &c[19..23], 2, 23, r as u64) && others(&b, &c, 19, 23), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o2_g2() {
        use crate::ubet::*;
        const N: usize = 34;
        assert!(<S2_2<()> as FixedSize>::SIZE == N && SIZE_S2_2 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S2_2::new(&b[..]);
        {
            let raw = field::<true>(&b[0..4], 2, 26);
            assert!(s.get_raw_f26() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f26() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S2_2::new(&mut c[..]); m.set_f26(v); }
            assert!(updated::<true>(&b[0..4], &c[0..4], 2, 26, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_2::new(&mut c[..]); m.set_raw_f26(r); }
            assert!(updated::<true>(&b[0..4], &c[0..4], 2, 26, r as u64) && others(&b, &c, 0, 4), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[4..8], 2, 27);
            assert!(s.get_raw_f27() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f27() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S2_2::new(&mut c[..]); m.set_f27(v); }
            assert!(updated::<true>(&b[4..8], &c[4..8], 2, 27, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_2::new(&mut c[..]); m.set_raw_f27(r); }
            assert!(updated::<true>(&b[4..8], &c[4..8], 2, 27, r as u64) && others(&b, &c, 4, 8), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[8..12], 2, 28);
            assert!(s.get_raw_f28() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f28() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S2_2::new(&mut c[..]); m.set_f28(v); }
            assert!(updated::<true>(&b[8..12], &c[8..12], 2, 28, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 8, 12), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_2::new(&mut c[..]); m.set_raw_f28(r); }
            assert!(updated::<true>(&b[8..12], &c[8..12], 2, 28, r as u64) && others(&b, &c, 8, 12), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[12..16], 2, 29);
            assert!(s.get_raw_f29() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f29() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S2_2::new(&mut c[..]); m.set_f29(v); }
            assert!(updated::<true>(&b[12..16], &c[12..16], 2, 29, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 16), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_2::new(&mut c[..]); m.set_raw_f29(r); }
            assert!(updated::<true>(&b[12..16], &c[12..16], 2, 29, r as u64) && others(&b, &c, 12, 16), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[16..20], 2, 30);
            assert!(s.get_raw_f30() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f30() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S2_2::new(&mut c[..]); m.set_f30(v); }
            assert!(updated::<true>(&b[16..20], &c[16..20], 2, 30, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_2::new(&mut c[..]); m.set_raw_f30(r); }
            assert!(updated::<true>(&b[16..20], &c[16..20], 2, 30, r as u64) && others(&b, &c, 16, 20), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[20..25], 2, 31);
            assert!(s.get_raw_f31() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f31() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S2_2::new(&mut c[..]); m.set_f31(v); }
            assert!(updated::<true>(&b[20..25], &c[20..25], 2, 31, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 25), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_2::new(&mut c[..]); m.set_raw_f31(r); }
            assert!(updated::<true>(&b[20..25], &c[20..25], 2, 31, r as u64) && others(&b, &c, 20, 25), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[24..29], 2, 34);
            assert!(s.get_raw_f34() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f34() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S2_2::new(&mut c[..]); m.set_f34(v); }
            assert!(updated::<true>(&b[24..29], &c[24..29], 2, 34, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 24, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_2::new(&mut c[..]); m.set_raw_f34(r); }
            assert!(updated::<true>(&b[24..29], &c[24..29], 2, 34, r as u64) && others(&b, &c, 24, 29), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[29..34], 2, 35);
            assert!(s.get_raw_f35() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f35() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S2_2::new(&mut c[..]); m.set_f35(v); }
            assert!(updated::<true>(&b[29..34], &c[29..34], 2, 35, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 29, 34), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_2::new(&mut c[..]); m.set_raw_f35(r); }
            assert!(updated::<true>(&b[29..34], &c[29..34], 2, 35, r as u64) && others(&b, &c, 29, 34), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o2_g3() {
        use crate::ubet::*;
        const N: usize = 44;
        assert!(<S2_3<()> as FixedSize>::SIZE == N && SIZE_S2_3 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S2_3::new(&b[..]);
        {
            let raw = field::<true>(&b[0..5], 2, 36);
            assert!(s.get_raw_f36() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f36() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S2_3::new(&mut c[..]); m.set_f36(v); }
            assert!(updated::<true>(&b[0..5], &c[0..5], 2, 36, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_3::new(&mut c[..]); m.set_raw_f36(r); }
            assert!(updated::<true>(&b[0..5], &c[0..5], 2, 36, r as u64) && others(&b, &c, 0, 5), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[5..10], 2, 37);
            assert!(s.get_raw_f37() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f37() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S2_3::new(&mut c[..]); m.set_f37(v); }
            assert!(updated::<true>(&b[5..10], &c[5..10], 2, 37, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_3::new(&mut c[..]); m.set_raw_f37(r); }
            assert!(updated::<true>(&b[5..10], &c[5..10], 2, 37, r as u64) && others(&b, &c, 5, 10), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[10..15], 2, 38);
            assert!(s.get_raw_f38() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f38() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S2_3::new(&mut c[..]); m.set_f38(v); }
            assert!(updated::<true>(&b[10..15], &c[10..15], 2, 38, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 15), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_3::new(&mut c[..]); m.set_raw_f38(r); }
            assert!(updated::<true>(&b[10..15], &c[10..15], 2, 38, r as u64) && others(&b, &c, 10, 15), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[15..21], 2, 39);
            assert!(s.get_raw_f39() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f39() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S2_3::new(&mut c[..]); m.set_f39(v); }
            assert!(updated::<true>(&b[15..21], &c[15..21], 2, 39, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 15, 21), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_3::new(&mut c[..]); m.set_raw_f39(r); }
            assert!(updated::<true>(&b[15..21], &c[15..21], 2, 39, r as u64) && others(&b, &c, 15, 21), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[20..26], 2, 41);
            assert!(s.get_raw_f41() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f41() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S2_3::new(&mut c[..]); m.set_f41(v); }
            assert!(updated::<true>(&b[20..26], &c[20..26], 2, 41, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 26), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_3::new(&mut c[..]); m.set_raw_f41(r); }
            assert!(updated::<true>(&b[20..26], &c[20..26], 2, 41, r as u64) && others(&b, &c, 20, 26), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[26..32], 2, 42);
            assert!(s.get_raw_f42() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f42() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S2_3::new(&mut c[..]); m.set_f42(v); }
            assert!(updated::<true>(&b[26..32], &c[26..32], 2, 42, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 26, 32), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_3::new(&mut c[..]); m.set_raw_f42(r); }
            assert!(updated::<true>(&b[26..32], &c[26..32], 2, 42, r as u64) && others(&b, &c, 26, 32), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[32..38], 2, 43);
            assert!(s.get_raw_f43() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f43() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S2_3::new(&mut c[..]); m.set_f43(v); }
            assert!(updated::<true>(&b[32..38], &c[32..38], 2, 43, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 32, 38), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_3::new(&mut c[..]); m.set_raw_f43(r); }
            assert!(updated::<true>(&b[32..38], &c[32..38], 2, 43, r as u64) && others(&b, &c, 32, 38), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[38..44], 2, 44);
            assert!(s.get_raw_f44() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f44() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S2_3::new(&mut c[..]); m.set_f44(v); }
            assert!(updated::<true>(&b[38..44], &c[38..44], 2, 44, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 38, 44), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_3::new(&mut c[..]); m.set_raw_f44(r); }
            assert!(updated::<true>(&b[38..44], &c[38..44], 2, 44, r as u64) && others(&b, &c, 38, 44), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o2_g4() {
        use crate::ubet::*;
        const N: usize = 52;
        assert!(<S2_4<()> as FixedSize>::SIZE == N && SIZE_S2_4 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S2_4::new(&b[..]);
        {
            let raw = field::<true>(&b[0..6], 2, 45);
            assert!(s.get_raw_f45() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f45() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S2_4::new(&mut c[..]); m.set_f45(v); }
            assert!(updated::<true>(&b[0..6], &c[0..6], 2, 45, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_4::new(&mut c[..]); m.set_raw_f45(r); }
            assert!(updated::<true>(&b[0..6], &c[0..6], 2, 45, r as u64) && others(&b, &c, 0, 6), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[6..12], 2, 46);
            assert!(s.get_raw_f46() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f46() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S2_4::new(&mut c[..]); m.set_f46(v); }
            assert!(updated::<true>(&b[6..12], &c[6..12], 2, 46, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 12), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_4::new(&mut c[..]); m.set_raw_f46(r); }
            assert!(updated::<true>(&b[6..12], &c[6..12], 2, 46, r as u64) && others(&b, &c, 6, 12), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[12..19], 2, 47);
            assert!(s.get_raw_f47() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f47() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S2_4::new(&mut c[..]); m.set_f47(v); }
            assert!(updated::<true>(&b[12..19], &c[12..19], 2, 47, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_4::new(&mut c[..]); m.set_raw_f47(r); }
            assert!(updated::<true>(&b[12..19], &c[12..19], 2, 47, r as u64) && others(&b, &c, 12, 19), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[18..25], 2, 48);
            assert!(s.get_raw_f48() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f48() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S2_4::new(&mut c[..]); m.set_f48(v); }
            assert!(updated::<true>(&b[18..25], &c[18..25], 2, 48, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 18, 25), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_4::new(&mut c[..]); m.set_raw_f48(r); }
            assert!(updated::<true>(&b[18..25], &c[18..25], 2, 48, r as u64) && others(&b, &c, 18, 25), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[24..31], 2, 49);
            assert!(s.get_raw_f49() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f49() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S2_4::new(&mut c[..]); m.set_f49(v); }
            assert!(updated::<true>(&b[24..31], &c[24..31], 2, 49, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 24, 31), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_4::new(&mut c[..]); m.set_raw_f49(r); }
            assert!(updated::<true>(&b[24..31], &c[24..31], 2, 49, r as u64) && others(&b, &c, 24, 31), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[31..38], 2, 50);
            assert!(s.get_raw_f50() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f50() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S2_4::new(&mut c[..]); m.set_f50(v); }
            assert!(updated::<true>(&b[31..38], &c[31..38], 2, 50, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 31, 38), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_4::new(&mut c[..]); m.set_raw_f50(r); }
            assert!(updated::<true>(&b[31..38], &c[31..38], 2, 50, r as u64) && others(&b, &c, 31, 38), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[38..45], 2, 51);
            assert!(s.get_raw_f51() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f51() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S2_4::new(&mut c[..]); m.set_f51(v); }
            assert!(updated::<true>(&b[38..45], &c[38..45], 2, 51, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 38, 45), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_4::new(&mut c[..]); m.set_raw_f51(r); }
            assert!(updated::<true>(&b[38..45], &c[38..45], 2, 51, r as u64) && others(&b, &c, 38, 45), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[45..52], 2, 52);
            assert!(s.get_raw_f52() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f52() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S2_4::new(&mut c[..]); m.set_f52(v); }
            assert!(updated::<true>(&b[45..52], &c[45..52], 2, 52, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 45, 52), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_4::new(&mut c[..]); m.set_raw_f52(r); }
            assert!(updated::<true>(&b[45..52], &c[45..52], 2, 52, r as u64) && others(&b, &c, 45, 52), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o2_g5() {
        use crate::ubet::*;
        const N: usize = 61;
        assert!(<S2_5<()> as FixedSize>::SIZE == N && SIZE_S2_5 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S2_5::new(&b[..]);
        {
            let raw = field::<true>(&b[0..7], 2, 53);
            assert!(s.get_raw_f53() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f53() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S2_5::new(&mut c[..]); m.set_f53(v); }
            assert!(updated::<true>(&b[0..7], &c[0..7], 2, 53, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_5::new(&mut c[..]); m.set_raw_f53(r); }
            assert!(updated::<true>(&b[0..7], &c[0..7], 2, 53, r as u64) && others(&b, &c, 0, 7), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[7..14], 2, 54);
            assert!(s.get_raw_f54() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f54() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S2_5::new(&mut c[..]); m.set_f54(v); }
            assert!(updated::<true>(&b[7..14], &c[7..14], 2, 54, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 14), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_5::new(&mut c[..]); m.set_raw_f54(r); }
            assert!(updated::<true>(&b[7..14], &c[7..14], 2, 54, r as u64) && others(&b, &c, 7, 14), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[14..22], 2, 55);
            assert!(s.get_raw_f55() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f55() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S2_5::new(&mut c[..]); m.set_f55(v); }
            assert!(updated::<true>(&b[14..22], &c[14..22], 2, 55, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 14, 22), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_5::new(&mut c[..]); m.set_raw_f55(r); }
            assert!(updated::<true>(&b[14..22], &c[14..22], 2, 55, r as u64) && others(&b, &c, 14, 22), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[21..29], 2, 58);
            assert!(s.get_raw_f58() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f58() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S2_5::new(&mut c[..]); m.set_f58(v); }
            assert!(updated::<true>(&b[21..29], &c[21..29], 2, 58, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 21, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_5::new(&mut c[..]); m.set_raw_f58(r); }
            assert!(updated::<true>(&b[21..29], &c[21..29], 2, 58, r as u64) && others(&b, &c, 21, 29), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[29..37], 2, 59);
            assert!(s.get_raw_f59() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f59() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S2_5::new(&mut c[..]); m.set_f59(v); }
            assert!(updated::<true>(&b[29..37], &c[29..37], 2, 59, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 29, 37), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_5::new(&mut c[..]); m.set_raw_f59(r); }
            assert!(updated::<true>(&b[29..37], &c[29..37], 2, 59, r as u64) && others(&b, &c, 29, 37), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[37..45], 2, 60);
            assert!(s.get_raw_f60() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f60() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S2_5::new(&mut c[..]); m.set_f60(v); }
            assert!(updated::<true>(&b[37..45], &c[37..45], 2, 60, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 37, 45), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_5::new(&mut c[..]); m.set_raw_f60(r); }
            assert!(updated::<true>(&b[37..45], &c[37..45], 2, 60, r as u64) && others(&b, &c, 37, 45), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[45..53], 2, 61);
            assert!(s.get_raw_f61() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f61() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S2_5::new(&mut c[..]); m.set_f61(v); }
            assert!(updated::<true>(&b[45..53], &c[45..53], 2, 61, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 45, 53), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_5::new(&mut c[..]); m.set_raw_f61(r); }
            assert!(updated::<true>(&b[45..53], &c[45..53], 2, 61, r as u64) && others(&b, &c, 45, 53), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[53..61], 2, 62);
            assert!(s.get_raw_f62() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f62() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S2_5::new(&mut c[..]); m.set_f62(v); }
            assert!(updated::<true>(&b[53..61], &c[53..61], 2, 62, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 53, 61), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_5::new(&mut c[..]); m.set_raw_f62(r); }
            assert!(updated::<true>(&b[53..61], &c[53..61], 2, 62, r as u64) && others(&b, &c, 53, 61), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o3_g0() {
        use crate::ubet::*;
        const N: usize = 12;
        assert!(<S3_0<()> as FixedSize>::SIZE == N && SIZE_S3_0 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S3_0::new(&b[..]);
        {
            let raw = field::<true>(&b[0..1], 3, 2);
            assert!(s.get_raw_f2() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f2() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S3_0::new(&mut c[..]); m.set_f2(v); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 3, 2, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_0::new(&mut c[..]); m.set_raw_f2(r); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 3, 2, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[1..2], 3, 4);
            assert!(s.get_raw_f4() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f4() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S3_0::new(&mut c[..]); m.set_f4(v); }
            assert!(updated::<true>(&b[1..2], &c[1..2], 3, 4, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_0::new(&mut c[..]); m.set_raw_f4(r); }
            assert!(updated::<true>(&b[1..2], &c[1..2], 3, 4, r as u64) && others(&b, &c, 1, 2), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[2..3], 3, 5);
            assert!(s.get_raw_f5() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f5() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S3_0::new(&mut c[..]); m.set_f5(v); }
            assert!(updated::<true>(&b[2..3], &c[2..3], 3, 5, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_0::new(&mut c[..]); m.set_raw_f5(r); }
            assert!(updated::<true>(&b[2..3], &c[2..3], 3, 5, r as u64) && others(&b, &c, 2, 3), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[3..5], 3, 6);
            assert!(s.get_raw_f6() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f6() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S3_0::new(&mut c[..]); m.set_f6(v); }
            assert!(updated::<true>(&b[3..5], &c[3..5], 3, 6, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_0::new(&mut c[..]); m.set_raw_f6(r); }
            assert!(updated::<true>(&b[3..5], &c[3..5], 3, 6, r as u64) && others(&b, &c, 3, 5), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[4..6], 3, 10);
            assert!(s.get_raw_f10() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f10() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S3_0::new(&mut c[..]); m.set_f10(v); }
            assert!(updated::<true>(&b[4..6], &c[4..6], 3, 10, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_0::new(&mut c[..]); m.set_raw_f10(r); }
            assert!(updated::<true>(&b[4..6], &c[4..6], 3, 10, r as u64) && others(&b, &c, 4, 6), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[6..8], 3, 11);
            assert!(s.get_raw_f11() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f11() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S3_0::new(&mut c[..]); m.set_f11(v); }
            assert!(updated::<true>(&b[6..8], &c[6..8], 3, 11, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_0::new(&mut c[..]); m.set_raw_f11(r); }
            assert!(updated::<true>(&b[6..8], &c[6..8], 3, 11, r as u64) && others(&b, &c, 6, 8), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[8..10], 3, 12);
            assert!(s.get_raw_f12() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f12() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S3_0::new(&mut c[..]); m.set_f12(v); }
            assert!(updated::<true>(&b[8..10], &c[8..10], 3, 12, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 8, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_0::new(&mut c[..]); m.set_raw_f12(r); }
            assert!(updated::<true>(&b[8..10], &c[8..10], 3, 12, r as u64) && others(&b, &c, 8, 10), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[10..12], 3, 13);
            assert!(s.get_raw_f13() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f13() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S3_0::new(&mut c[..]); m.set_f13(v); }
            assert!(updated::<true>(&b[10..12], &c[10..12], 3, 13, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 12), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_0::new(&mut c[..]); m.set_raw_f13(r); }
            assert!(updated::<true>(&b[10..12], &c[10..12], 3, 13, r as u64) && others(&b, &c, 10, 12), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o3_g1() {
        use crate::ubet::*;
        const N: usize = 23;
        assert!(<S3_1<()> as FixedSize>::SIZE == N && SIZE_S3_1 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S3_1::new(&b[..]);
        {
            let raw = field::<true>(&b[0..3], 3, 14);
            assert!(s.get_raw_f14() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f14() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S3_1::new(&mut c[..]); m.set_f14(v); }
            assert!(updated::<true>(&b[0..3], &c[0..3], 3, 14, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_1::new(&mut c[..]); m.set_raw_f14(r); }
            assert!(updated::<true>(&b[0..3], &c[0..3], 3, 14, r as u64) && others(&b, &c, 0, 3), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[2..5], 3, 15);
            assert!(s.get_raw_f15() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f15() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S3_1::new(&mut c[..]); m.set_f15(v); }
            assert!(updated::<true>(&b[2..5], &c[2..5], 3, 15, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_1::new(&mut c[..]); m.set_raw_f15(r); }
            assert!(updated::<true>(&b[2..5], &c[2..5], 3, 15, r as u64) && others(&b, &c, 2, 5), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[4..7], 3, 18);
            assert!(s.get_raw_f18() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f18() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S3_1::new(&mut c[..]); m.set_f18(v); }
            assert!(updated::<true>(&b[4..7], &c[4..7], 3, 18, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_1::new(&mut c[..]); m.set_raw_f18(r); }
            assert!(updated::<true>(&b[4..7], &c[4..7], 3, 18, r as u64) && others(&b, &c, 4, 7), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[7..10], 3, 19);
            assert!(s.get_raw_f19() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f19() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S3_1::new(&mut c[..]); m.set_f19(v); }
            assert!(updated::<true>(&b[7..10], &c[7..10], 3, 19, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_1::new(&mut c[..]); m.set_raw_f19(r); }
            assert!(updated::<true>(&b[7..10], &c[7..10], 3, 19, r as u64) && others(&b, &c, 7, 10), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[10..13], 3, 20);
            assert!(s.get_raw_f20() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f20() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S3_1::new(&mut c[..]); m.set_f20(v); }
            assert!(updated::<true>(&b[10..13], &c[10..13], 3, 20, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_1::new(&mut c[..]); m.set_raw_f20(r); }
            assert!(updated::<true>(&b[10..13], &c[10..13], 3, 20, r as u64) && others(&b, &c, 10, 13), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[13..16], 3, 21);
            assert!(s.get_raw_f21() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f21() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S3_1::new(&mut c[..]); m.set_f21(v); }
            assert!(updated::<true>(&b[13..16], &c[13..16], 3, 21, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 13, 16), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_1::new(&mut c[..]); m.set_raw_f21(r); }
            assert!(updated::<true>(&b[13..16], &c[13..16], 3, 21, r as u64) && others(&b, &c, 13, 16), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[16..20], 3, 22);
            assert!(s.get_raw_f22() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f22() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S3_1::new(&mut c[..]); m.set_f22(v); }
            assert!(updated::<true>(&b[16..20], &c[16..20], 3, 22, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_1::new(&mut c[..]); m.set_raw_f22(r); }
            assert!(updated::<true>(&b[16..20], &c[16..20], 3, 22, r as u64) && others(&b, &c, 16, 20), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[19..23], 3, 23);
            assert!(s.get_raw_f23() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f23() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S3_1::new(&mut c[..]); m.set_f23(v); }
            assert!(updated::<true>(&b[19..23], &c[19..23], 3, 23, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 19, 23), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_1::new(&mut c[..]); m.set_raw_f23(r); }
            assert!(updated::<true>(&b[19..23], &c[19..23], 3, 23, r as u64) && others(&b, &c, 19, 23), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o3_g2() {
        use crate::ubet::*;
        const N: usize = 34;
        assert!(<S3_2<()> as FixedSize>::SIZE == N && SIZE_S3_2 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S3_2::new(&b[..]);
        {
            let raw = field::<true>(&b[0..4], 3, 26);
            assert!(s.get_raw_f26() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f26() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S3_2::new(&mut c[..]); m.set_f26(v); }
            assert!(updated::<true>(&b[0..4], &c[0..4], 3, 26, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_2::new(&mut c[..]); m.set_raw_f26(r); }
            assert!(updated::<true>(&b[0..4], &c[0..4], 3, 26, r as u64) && others(&b, &c, 0, 4), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[4..8], 3, 27);
            assert!(s.get_raw_f27() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f27() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S3_2::new(&mut c[..]); m.set_f27(v); }
            assert!(updated::<true>(&b[4..8], &c[4..8], 3, 27, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_2::new(&mut c[..]); m.set_raw_f27(r); }
            assert!(updated::<true>(&b[4..8], &c[4..8], 3, 27, r as u64) && others(&b, &c, 4, 8), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[8..12], 3, 28);
            assert!(s.get_raw_f28() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f28() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S3_2::new(&mut c[..]); m.set_f28(v); }
            assert!(updated::<true>(&b[8..12], &c[8..12], 3, 28, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 8, 12), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_2::new(&mut c[..]); m.set_raw_f28(r); }
            assert!(updated::<true>(&b[8..12], &c[8..12], 3, 28, r as u64) && others(&b, &c, 8, 12), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[12..16], 3, 29);
            assert!(s.get_raw_f29() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f29() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S3_2::new(&mut c[..]); m.set_f29(v); }
            assert!(updated::<true>(&b[12..16], &c[12..16], 3, 29, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 16), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_2::new(&mut c[..]); m.set_raw_f29(r); }
            assert!(updated::<true>(&b[12..16], &c[12..16], 3, 29, r as u64) && others(&b, &c, 12, 16), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[16..21], 3, 30);
            assert!(s.get_raw_f30() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f30() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S3_2::new(&mut c[..]); m.set_f30(v); }
            assert!(updated::<true>(&b[16..21], &c[16..21], 3, 30, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 21), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_2::new(&mut c[..]); m.set_raw_f30(r); }
            assert!(updated::<true>(&b[16..21], &c[16..21], 3, 30, r as u64) && others(&b, &c, 16, 21), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[20..25], 3, 31);
            assert!(s.get_raw_f31() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f31() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S3_2::new(&mut c[..]); m.set_f31(v); }
            assert!(updated::<true>(&b[20..25], &c[20..25], 3, 31, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 25), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_2::new(&mut c[..]); m.set_raw_f31(r); }
            assert!(updated::<true>(&b[20..25], &c[20..25], 3, 31, r as u64) && others(&b, &c, 20, 25), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[24..29], 3, 34);
            assert!(s.get_raw_f34() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f34() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S3_2::new(&mut c[..]); m.set_f34(v); }
            assert!(updated::<true>(&b[24..29], &c[24..29], 3, 34, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 24, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_2::new(&mut c[..]); m.set_raw_f34(r); }
            assert!(updated::<true>(&b[24..29], &c[24..29], 3, 34, r as u64) && others(&b, &c, 24, 29), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[29..34], 3, 35);
            assert!(s.get_raw_f35() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f35() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S3_2::new(&mut c[..]); m.set_f35(v); }
            assert!(updated::<true>(&b[29..34], &c[29..34], 3, 35, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 29, 34), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_2::new(&mut c[..]); m.set_raw_f35(r); }
            assert!(updated::<true>(&b[29..34], &c[29..34], 3, 35, r as u64) && others(&b, &c, 29, 34), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o3_g3() {
        use crate::ubet::*;
        const N: usize = 44;
        assert!(<S3_3<()> as FixedSize>::SIZE == N && SIZE_S3_3 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S3_3::new(&b[..]);
        {
            let raw = field::<true>(&b[0..5], 3, 36);
            assert!(s.get_raw_f36() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f36() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S3_3::new(&mut c[..]); m.set_f36(v); }
            assert!(updated::<true>(&b[0..5], &c[0..5], 3, 36, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_3::new(&mut c[..]); m.set_raw_f36(r); }
            assert!(updated::<true>(&b[0..5], &c[0..5], 3, 36, r as u64) && others(&b, &c, 0, 5), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[5..10], 3, 37);
            assert!(s.get_raw_f37() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f37() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S3_3::new(&mut c[..]); m.set_f37(v); }
            assert!(updated::<true>(&b[5..10], &c[5..10], 3, 37, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_3::new(&mut c[..]); m.set_raw_f37(r); }
            assert!(updated::<true>(&b[5..10], &c[5..10], 3, 37, r as u64) && others(&b, &c, 5, 10), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[10..16], 3, 38);
            assert!(s.get_raw_f38() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f38() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S3_3::new(&mut c[..]); m.set_f38(v); }
            assert!(updated::<true>(&b[10..16], &c[10..16], 3, 38, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 16), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_3::new(&mut c[..]); m.set_raw_f38(r); }
            assert!(updated::<true>(&b[10..16], &c[10..16], 3, 38, r as u64) && others(&b, &c, 10, 16), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[15..21], 3, 39);
            assert!(s.get_raw_f39() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f39() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S3_3::new(&mut c[..]); m.set_f39(v); }
            assert!(updated::<true>(&b[15..21], &c[15..21], 3, 39, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 15, 21), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_3::new(&mut c[..]); m.set_raw_f39(r); }
            assert!(updated::<true>(&b[15..21], &c[15..21], 3, 39, r as u64) && others(&b, &c, 15, 21), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[20..26], 3, 41);
            assert!(s.get_raw_f41() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f41() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S3_3::new(&mut c[..]); m.set_f41(v); }
            assert!(updated::<true>(&b[20..26], &c[20..26], 3, 41, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 26), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_3::new(&mut c[..]); m.set_raw_f41(r); }
            assert!(updated::<true>(&b[20..26], &c[20..26], 3, 41, r as u64) && others(&b, &c, 20, 26), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[26..32], 3, 42);
            assert!(s.get_raw_f42() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f42() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S3_3::new(&mut c[..]); m.set_f42(v); }
            assert!(updated::<true>(&b[26..32], &c[26..32], 3, 42, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 26, 32), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_3::new(&mut c[..]); m.set_raw_f42(r); }
            assert!(updated::<true>(&b[26..32], &c[26..32], 3, 42, r as u64) && others(&b, &c, 26, 32), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[32..38], 3, 43);
            assert!(s.get_raw_f43() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f43() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S3_3::new(&mut c[..]); m.set_f43(v); }
            assert!(updated::<true>(&b[32..38], &c[32..38], 3, 43, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 32, 38), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_3::new(&mut c[..]); m.set_raw_f43(r); }
            assert!(updated::<true>(&b[32..38], &c[32..38], 3, 43, r as u64) && others(&b, &c, 32, 38), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[38..44], 3, 44);
            assert!(s.get_raw_f44() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f44() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S3_3::new(&mut c[..]); m.set_f44(v); }
            assert!(updated::<true>(&b[38..44], &c[38..44], 3, 44, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 38, 44), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_3::new(&mut c[..]); m.set_raw_f44(r); }
            assert!(updated::<true>(&b[38..44], &c[38..44], 3, 44, r as u64) && others(&b, &c, 38, 44), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o3_g4() {
        use crate::ubet::*;
        const N: usize = 52;
        assert!(<S3_4<()> as FixedSize>::SIZE == N && SIZE_S3_4 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S3_4::new(&b[..]);
        {
            let raw = field::<true>(&b[0..6], 3, 45);
            assert!(s.get_raw_f45() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f45() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S3_4::new(&mut c[..]); m.set_f45(v); }
            assert!(updated::<true>(&b[0..6], &c[0..6], 3, 45, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_4::new(&mut c[..]); m.set_raw_f45(r); }
            assert!(updated::<true>(&b[0..6], &c[0..6], 3, 45, r as u64) && others(&b, &c, 0, 6), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[6..13], 3, 46);
            assert!(s.get_raw_f46() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f46() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S3_4::new(&mut c[..]); m.set_f46(v); }
            assert!(updated::<true>(&b[6..13], &c[6..13], 3, 46, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_4::new(&mut c[..]); m.set_raw_f46(r); }
            assert!(updated::<true>(&b[6..13], &c[6..13], 3, 46, r as u64) && others(&b, &c, 6, 13), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[12..19], 3, 47);
            assert!(s.get_raw_f47() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f47() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S3_4::new(&mut c[..]); m.set_f47(v); }
            assert!(updated::<true>(&b[12..19], &c[12..19], 3, 47, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_4::new(&mut c[..]); m.set_raw_f47(r); }
            assert!(updated::<true>(&b[12..19], &c[12..19], 3, 47, r as u64) && others(&b, &c, 12, 19), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[18..25], 3, 48);
            assert!(s.get_raw_f48() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f48() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S3_4::new(&mut c[..]); m.set_f48(v); }
            assert!(updated::<true>(&b[18..25], &c[18..25], 3, 48, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 18, 25), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_4::new(&mut c[..]); m.set_raw_f48(r); }
            assert!(updated::<true>(&b[18..25], &c[18..25], 3, 48, r as u64) && others(&b, &c, 18, 25), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[24..31], 3, 49);
            assert!(s.get_raw_f49() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f49() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S3_4::new(&mut c[..]); m.set_f49(v); }
            assert!(updated::<true>(&b[24..31], &c[24..31], 3, 49, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 24, 31), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_4::new(&mut c[..]); m.set_raw_f49(r); }
            assert!(updated::<true>(&b[24..31], &c[24..31], 3, 49, r as u64) && others(&b, &c, 24, 31), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[31..38], 3, 50);
            assert!(s.get_raw_f50() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f50() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S3_4::new(&mut c[..]); m.set_f50(v); }
            assert!(updated::<true>(&b[31..38], &c[31..38], 3, 50, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 31, 38), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_4::new(&mut c[..]); m.set_raw_f50(r); }
            assert!(updated::<true>(&b[31..38], &c[31..38], 3, 50, r as u64) && others(&b, &c, 31, 38), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[38..45], 3, 51);
            assert!(s.get_raw_f51() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f51() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S3_4::new(&mut c[..]); m.set_f51(v); }
            assert!(updated::<true>(&b[38..45], &c[38..45], 3, 51, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 38, 45), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_4::new(&mut c[..]); m.set_raw_f51(r); }
            assert!(updated::<true>(&b[38..45], &c[38..45], 3, 51, r as u64) && others(&b, &c, 38, 45), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[45..52], 3, 52);
            assert!(s.get_raw_f52() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f52() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S3_4::new(&mut c[..]); m.set_f52(v); }
            assert!(updated::<true>(&b[45..52], &c[45..52], 3, 52, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 45, 52), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_4::new(&mut c[..]); m.set_raw_f52(r); }
            assert!(updated::<true>(&b[45..52], &c[45..52], 3, 52, r as u64) && others(&b, &c, 45, 52), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o3_g5() {
        use crate::ubet::*;
        const N: usize = 62;
        assert!(<S3_5<()> as FixedSize>::SIZE == N && SIZE_S3_5 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S3_5::new(&b[..]);
        {
            let raw = field::<true>(&b[0..7], 3, 53);
            assert!(s.get_raw_f53() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f53() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S3_5::new(&mut c[..]); m.set_f53(v); }
            assert!(updated::<true>(&b[0..7], &c[0..7], 3, 53, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_5::new(&mut c[..]); m.set_raw_f53(r); }
            assert!(updated::<true>(&b[0..7], &c[0..7], 3, 53, r as u64) && others(&b, &c, 0, 7), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[7..15], 3, 54);
            assert!(s.get_raw_f54() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f54() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S3_5::new(&mut c[..]); m.set_f54(v); }
            assert!(updated::<true>(&b[7..15], &c[7..15], 3, 54, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 15), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_5::new(&mut c[..]); m.set_raw_f54(r); }
            assert!(updated::<true>(&b[7..15], &c[7..15], 3, 54, r as u64) && others(&b, &c, 7, 15), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[14..22], 3, 55);
            assert!(s.get_raw_f55() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f55() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S3_5::new(&mut c[..]); m.set_f55(v); }
            assert!(updated::<true>(&b[14..22], &c[14..22], 3, 55, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 14, 22), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_5::new(&mut c[..]); m.set_raw_f55(r); }
            assert!(updated::<true>(&b[14..22], &c[14..22], 3, 55, r as u64) && others(&b, &c, 14, 22), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[21..29], 3, 58);
            assert!(s.get_raw_f58() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f58() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S3_5::new(&mut c[..]); m.set_f58(v); }
            assert!(updated::<true>(&b[21..29], &c[21..29], 3, 58, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 21, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_5::new(&mut c[..]); m.set_raw_f58(r); }
            assert!(updated::<true>(&b[21..29], &c[21..29], 3, 58, r as u64) && others(&b, &c, 21, 29), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[29..37], 3, 59);
            assert!(s.get_raw_f59() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f59() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S3_5::new(&mut c[..]); m.set_f59(v); }
            assert!(updated::<true>(&b[29..37], &c[29..37], 3, 59, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 29, 37), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_5::new(&mut c[..]); m.set_raw_f59(r); }
            assert!(updated::<true>(&b[29..37], &c[29..37], 3, 59, r as u64) && others(&b, &c, 29, 37), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[37..45], 3, 60);
            assert!(s.get_raw_f60() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f60() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S3_5::new(&mut c[..]); m.set_f60(v); }
            assert!(updated::<true>(&b[37..45], &c[37..45], 3, 60, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 37, 45), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_5::new(&mut c[..]); m.set_raw_f60(r); }
            assert!(updated::<true>(&b[37..45], &c[37..45], 3, 60, r as u64) && others(&b, &c, 37, 45), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[45..53], 3, 61);
            assert!(s.get_raw_f61() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f61() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S3_5::new(&mut c[..]); m.set_f61(v); }
            assert!(updated::<true>(&b[45..53], &c[45..53], 3, 61, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 45, 53), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_5::new(&mut c[..]); m.set_raw_f61(r); }
            assert!(updated::<true>(&b[45..53], &c[45..53], 3, 61, r as u64) && others(&b, &c, 45, 53), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[53..62], 3, 62);
            assert!(s.get_raw_f62() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f62() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S3_5::new(&mut c[..]); m.set_f62(v); }
            assert!(updated::<true>(&b[53..62], &c[53..62], 3, 62, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 53, 62), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_5::new(&mut c[..]); m.set_raw_f62(r); }
            assert!(updated::<true>(&b[53..62], &c[53..62], 3, 62, r as u64) && others(&b, &c, 53, 62), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o4_g0() {
        use crate::ubet::*;
        const N: usize = 13;
        assert!(<S4_0<()> as FixedSize>::SIZE == N && SIZE_S4_0 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S4_0::new(&b[..]);
        {
            let raw = field::<true>(&b[0..1], 4, 2);
            assert!(s.get_raw_f2() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f2() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S4_0::new(&mut c[..]); m.set_f2(v); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 4, 2, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_0::new(&mut c[..]); m.set_raw_f2(r); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 4, 2, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[1..2], 4, 4);
            assert!(s.get_raw_f4() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f4() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S4_0::new(&mut c[..]); m.set_f4(v); }
            assert!(updated::<true>(&b[1..2], &c[1..2], 4, 4, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_0::new(&mut c[..]); m.set_raw_f4(r); }
            assert!(updated::<true>(&b[1..2], &c[1..2], 4, 4, r as u64) && others(&b, &c, 1, 2), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[2..4], 4, 5);
            assert!(s.get_raw_f5() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f5() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S4_0::new(&mut c[..]); m.set_f5(v); }
            assert!(updated::<true>(&b[2..4], &c[2..4], 4, 5, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_0::new(&mut c[..]); m.set_raw_f5(r); }
            assert!(updated::<true>(&b[2..4], &c[2..4], 4, 5, r as u64) && others(&b, &c, 2, 4), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[3..5], 4, 6);
            assert!(s.get_raw_f6() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f6() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S4_0::new(&mut c[..]); m.set_f6(v); }
            assert!(updated::<true>(&b[3..5], &c[3..5], 4, 6, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_0::new(&mut c[..]); m.set_raw_f6(r); }
            assert!(updated::<true>(&b[3..5], &c[3..5], 4, 6, r as u64) && others(&b, &c, 3, 5), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[4..6], 4, 10);
            assert!(s.get_raw_f10() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f10() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S4_0::new(&mut c[..]); m.set_f10(v); }
            assert!(updated::<true>(&b[4..6], &c[4..6], 4, 10, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_0::new(&mut c[..]); m.set_raw_f10(r); }
            assert!(updated::<true>(&b[4..6], &c[4..6], 4, 10, r as u64) && others(&b, &c, 4, 6), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[6..8], 4, 11);
            assert!(s.get_raw_f11() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f11() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S4_0::new(&mut c[..]); m.set_f11(v); }
            assert!(updated::<true>(&b[6..8], &c[6..8], 4, 11, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_0::new(&mut c[..]); m.set_raw_f11(r); }
            assert!(updated::<true>(&b[6..8], &c[6..8], 4, 11, r as u64) && others(&b, &c, 6, 8), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[8..10], 4, 12);
            assert!(s.get_raw_f12() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f12() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S4_0::new(&mut c[..]); m.set_f12(v); }
            assert!(updated::<true>(&b[8..10], &c[8..10], 4, 12, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 8, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_0::new(&mut c[..]); m.set_raw_f12(r); }
            assert!(updated::<true>(&b[8..10], &c[8..10], 4, 12, r as u64) && others(&b, &c, 8, 10), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[10..13], 4, 13);
            assert!(s.get_raw_f13() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f13() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S4_0::new(&mut c[..]); m.set_f13(v); }
            assert!(updated::<true>(&b[10..13], &c[10..13], 4, 13, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_0::new(&mut c[..]); m.set_raw_f13(r); }
            assert!(updated::<true>(&b[10..13], &c[10..13], 4, 13, r as u64) && others(&b, &c, 10, 13), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o4_g1() {
        use crate::ubet::*;
        const N: usize = 23;
        assert!(<S4_1<()> as FixedSize>::SIZE == N && SIZE_S4_1 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S4_1::new(&b[..]);
        {
            let raw = field::<true>(&b[0..3], 4, 14);
            assert!(s.get_raw_f14() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f14() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S4_1::new(&mut c[..]); m.set_f14(v); }
            assert!(updated::<true>(&b[0..3], &c[0..3], 4, 14, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_1::new(&mut c[..]); m.set_raw_f14(r); }
            assert!(updated::<true>(&b[0..3], &c[0..3], 4, 14, r as u64) && others(&b, &c, 0, 3), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[2..5], 4, 15);
            assert!(s.get_raw_f15() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f15() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S4_1::new(&mut c[..]); m.set_f15(v); }
            assert!(updated::<true>(&b[2..5], &c[2..5], 4, 15, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_1::new(&mut c[..]); m.set_raw_f15(r); }
            assert!(updated::<true>(&b[2..5], &c[2..5], 4, 15, r as u64) && others(&b, &c, 2, 5), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[4..7], 4, 18);
            assert!(s.get_raw_f18() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f18() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S4_1::new(&mut c[..]); m.set_f18(v); }
            assert!(updated::<true>(&b[4..7], &c[4..7], 4, 18, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_1::new(&mut c[..]); m.set_raw_f18(r); }
            assert!(updated::<true>(&b[4..7], &c[4..7], 4, 18, r as u64) && others(&b, &c, 4, 7), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[7..10], 4, 19);
            assert!(s.get_raw_f19() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f19() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S4_1::new(&mut c[..]); m.set_f19(v); }
            assert!(updated::<true>(&b[7..10], &c[7..10], 4, 19, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_1::new(&mut c[..]); m.set_raw_f19(r); }
            assert!(updated::<true>(&b[7..10], &c[7..10], 4, 19, r as u64) && others(&b, &c, 7, 10), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[10..13], 4, 20);
            assert!(s.get_raw_f20() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f20() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S4_1::new(&mut c[..]); m.set_f20(v); }
            assert!(updated::<true>(&b[10..13], &c[10..13], 4, 20, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_1::new(&mut c[..]); m.set_raw_f20(r); }
            assert!(updated::<true>(&b[10..13], &c[10..13], 4, 20, r as u64) && others(&b, &c, 10, 13), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[13..17], 4, 21);
            assert!(s.get_raw_f21() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f21() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S4_1::new(&mut c[..]); m.set_f21(v); }
            assert!(updated::<true>(&b[13..17], &c[13..17], 4, 21, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 13, 17), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_1::new(&mut c[..]); m.set_raw_f21(r); }
            assert!(updated::<true>(&b[13..17], &c[13..17], 4, 21, r as u64) && others(&b, &c, 13, 17), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[16..20], 4, 22);
            assert!(s.get_raw_f22() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f22() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S4_1::new(&mut c[..]); m.set_f22(v); }
            assert!(updated::<true>(&b[16..20], &c[16..20], 4, 22, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_1::new(&mut c[..]); m.set_raw_f22(r); }
            assert!(updated::<true>(&b[16..20], &c[16..20], 4, 22, r as u64) && others(&b, &c, 16, 20), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[19..23], 4, 23);
            assert!(s.get_raw_f23() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f23() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S4_1::new(&mut c[..]); m.set_f23(v); }
            assert!(updated::<true>(&b[19..23], &c[19..23], 4, 23, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 19, 23), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_1::new(&mut c[..]); m.set_raw_f23(r); }
            assert!(updated::<true>(&b[19..23], &c[19..23], 4, 23, r as u64) && others(&b, &c, 19, 23), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o4_g2() {
        use crate::ubet::*;
        const N: usize = 34;
        assert!(<S4_2<()> as FixedSize>::SIZE == N && SIZE_S4_2 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S4_2::new(&b[..]);
        {
            let raw = field::<true>(&b[0..4], 4, 26);
            assert!(s.get_raw_f26() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f26() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S4_2::new(&mut c[..]); m.set_f26(v); }
            assert!(updated::<true>(&b[0..4], &c[0..4], 4, 26, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_2::new(&mut c[..]); m.set_raw_f26(r); }
            assert!(updated::<true>(&b[0..4], &c[0..4], 4, 26, r as u64) && others(&b, &c, 0, 4), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[4..8], 4, 27);
            assert!(s.get_raw_f27() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f27() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S4_2::new(&mut c[..]); m.set_f27(v); }
            assert!(updated::<true>(&b[4..8], &c[4..8], 4, 27, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_2::new(&mut c[..]); m.set_raw_f27(r); }
            assert!(updated::<true>(&b[4..8], &c[4..8], 4, 27, r as u64) && others(&b, &c, 4, 8), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[8..12], 4, 28);
            assert!(s.get_raw_f28() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f28() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S4_2::new(&mut c[..]); m.set_f28(v); }
            assert!(updated::<true>(&b[8..12], &c[8..12], 4, 28, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 8, 12), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_2::new(&mut c[..]); m.set_raw_f28(r); }
            assert!(updated::<true>(&b[8..12], &c[8..12], 4, 28, r as u64) && others(&b, &c, 8, 12), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[12..17], 4, 29);
            assert!(s.get_raw_f29() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f29() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S4_2::new(&mut c[..]); m.set_f29(v); }
            assert!(updated::<true>(&b[12..17], &c[12..17], 4, 29, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 17), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_2::new(&mut c[..]); m.set_raw_f29(r); }
            assert!(updated::<true>(&b[12..17], &c[12..17], 4, 29, r as u64) && others(&b, &c, 12, 17), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[16..21], 4, 30);
            assert!(s.get_raw_f30() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f30() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S4_2::new(&mut c[..]); m.set_f30(v); }
            assert!(updated::<true>(&b[16..21], &c[16..21], 4, 30, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 21), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_2::new(&mut c[..]); m.set_raw_f30(r); }
            assert!(updated::<true>(&b[16..21], &c[16..21], 4, 30, r as u64) && others(&b, &c, 16, 21), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[20..25], 4, 31);
            assert!(s.get_raw_f31() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f31() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S4_2::new(&mut c[..]); m.set_f31(v); }
            assert!(updated::<true>(&b[20..25], &c[20..25], 4, 31, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 25), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_2::new(&mut c[..]); m.set_raw_f31(r); }
            assert!(updated::<true>(&b[20..25], &c[20..25], 4, 31, r as u64) && others(&b, &c, 20, 25), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[24..29], 4, 34);
            assert!(s.get_raw_f34() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f34() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S4_2::new(&mut c[..]); m.set_f34(v); }
            assert!(updated::<true>(&b[24..29], &c[24..29], 4, 34, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 24, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_2::new(&mut c[..]); m.set_raw_f34(r); }
            assert!(updated::<true>(&b[24..29], &c[24..29], 4, 34, r as u64) && others(&b, &c, 24, 29), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[29..34], 4, 35);
            assert!(s.get_raw_f35() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f35() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S4_2::new(&mut c[..]); m.set_f35(v); }
            assert!(updated::<true>(&b[29..34], &c[29..34], 4, 35, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 29, 34), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_2::new(&mut c[..]); m.set_raw_f35(r); }
            assert!(updated::<true>(&b[29..34], &c[29..34], 4, 35, r as u64) && others(&b, &c, 29, 34), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o4_g3() {
        use crate::ubet::*;
        const N: usize = 44;
        assert!(<S4_3<()> as FixedSize>::SIZE == N && SIZE_S4_3 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S4_3::new(&b[..]);
        {
            let raw = field::<true>(&b[0..5], 4, 36);
            assert!(s.get_raw_f36() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f36() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S4_3::new(&mut c[..]); m.set_f36(v); }
            assert!(updated::<true>(&b[0..5], &c[0..5], 4, 36, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_3::new(&mut c[..]); m.set_raw_f36(r); }
            assert!(updated::<true>(&b[0..5], &c[0..5], 4, 36, r as u64) && others(&b, &c, 0, 5), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[5..11], 4, 37);
            assert!(s.get_raw_f37() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f37() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S4_3::new(&mut c[..]); m.set_f37(v); }
            assert!(updated::<true>(&b[5..11], &c[5..11], 4, 37, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 11), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_3::new(&mut c[..]); m.set_raw_f37(r); }
            assert!(updated::<true>(&b[5..11], &c[5..11], 4, 37, r as u64) && others(&b, &c, 5, 11), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[10..16], 4, 38);
            assert!(s.get_raw_f38() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f38() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S4_3::new(&mut c[..]); m.set_f38(v); }
            assert!(updated::<true>(&b[10..16], &c[10..16], 4, 38, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 16), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_3::new(&mut c[..]); m.set_raw_f38(r); }
            assert!(updated::<true>(&b[10..16], &c[10..16], 4, 38, r as u64) && others(&b, &c, 10, 16), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[15..21], 4, 39);
            assert!(s.get_raw_f39() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f39() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S4_3::new(&mut c[..]); m.set_f39(v); }
            assert!(updated::<true>(&b[15..21], &c[15..21], 4, 39, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 15, 21), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_3::new(&mut c[..]); m.set_raw_f39(r); }
            assert!(updated::<true>(&b[15..21], &c[15..21], 4, 39, r as u64) && others(&b, &c, 15, 21), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[20..26], 4, 41);
            assert!(s.get_raw_f41() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f41() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S4_3::new(&mut c[..]); m.set_f41(v); }
            assert!(updated::<true>(&b[20..26], &c[20..26], 4, 41, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 26), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_3::new(&mut c[..]); m.set_raw_f41(r); }
            assert!(updated::<true>(&b[20..26], &c[20..26], 4, 41, r as u64) && others(&b, &c, 20, 26), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[26..32], 4, 42);
            assert!(s.get_raw_f42() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f42() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S4_3::new(&mut c[..]); m.set_f42(v); }
            assert!(updated::<true>(&b[26..32], &c[26..32], 4, 42, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 26, 32), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_3::new(&mut c[..]); m.set_raw_f42(r); }
            assert!(updated::<true>(&b[26..32], &c[26..32], 4, 42, r as u64) && others(&b, &c, 26, 32), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[32..38], 4, 43);
            assert!(s.get_raw_f43() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f43() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S4_3::new(&mut c[..]); m.set_f43(v); }
            assert!(updated::<true>(&b[32..38], &c[32..38], 4, 43, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 32, 38), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_3::new(&mut c[..]); m.set_raw_f43(r); }
            assert!(updated::<true>(&b[32..38], &c[32..38], 4, 43, r as u64) && others(&b, &c, 32, 38), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[38..44], 4, 44);
            assert!(s.get_raw_f44() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f44() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S4_3::new(&mut c[..]); m.set_f44(v); }
            assert!(updated::<true>(&b[38..44], &c[38..44], 4, 44, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 38, 44), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_3::new(&mut c[..]); m.set_raw_f44(r); }
            assert!(updated::<true>(&b[38..44], &c[38..44], 4, 44, r as u64) && others(&b, &c, 38, 44), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o4_g4() {
        use crate::ubet::*;
        const N: usize = 52;
        assert!(<S4_4<()> as FixedSize>::SIZE == N && SIZE_S4_4 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S4_4::new(&b[..]);
        {
            let raw = field::<true>(&b[0..7], 4, 45);
            assert!(s.get_raw_f45() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f45() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S4_4::new(&mut c[..]); m.set_f45(v); }
            assert!(updated::<true>(&b[0..7], &c[0..7], 4, 45, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_4::new(&mut c[..]); m.set_raw_f45(r); }
            assert!(updated::<true>(&b[0..7], &c[0..7], 4, 45, r as u64) && others(&b, &c, 0, 7), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[6..13], 4, 46);
            assert!(s.get_raw_f46() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f46() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S4_4::new(&mut c[..]); m.set_f46(v); }
            assert!(updated::<true>(&b[6..13], &c[6..13], 4, 46, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_4::new(&mut c[..]); m.set_raw_f46(r); }
            assert!(updated::<true>(&b[6..13], &c[6..13], 4, 46, r as u64) && others(&b, &c, 6, 13), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[12..19], 4, 47);
            assert!(s.get_raw_f47() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f47() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S4_4::new(&mut c[..]); m.set_f47(v); }
            assert!(updated::<true>(&b[12..19], &c[12..19], 4, 47, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_4::new(&mut c[..]); m.set_raw_f47(r); }
            assert!(updated::<true>(&b[12..19], &c[12..19], 4, 47, r as u64) && others(&b, &c, 12, 19), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[18..25], 4, 48);
            assert!(s.get_raw_f48() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f48() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S4_4::new(&mut c[..]); m.set_f48(v); }
            assert!(updated::<true>(&b[18..25], &c[18..25], 4, 48, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 18, 25), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_4::new(&mut c[..]); m.set_raw_f48(r); }
            assert!(updated::<true>(&b[18..25], &c[18..25], 4, 48, r as u64) && others(&b, &c, 18, 25), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[24..31], 4, 49);
            assert!(s.get_raw_f49() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f49() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S4_4::new(&mut c[..]); m.set_f49(v); }
            assert!(updated::<true>(&b[24..31], &c[24..31], 4, 49, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 24, 31), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_4::new(&mut c[..]); m.set_raw_f49(r); }
            assert!(updated::<true>(&b[24..31], &c[24..31], 4, 49, r as u64) && others(&b, &c, 24, 31), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[31..38], 4, 50);
            assert!(s.get_raw_f50() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f50() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S4_4::new(&mut c[..]); m.set_f50(v); }
            assert!(updated::<true>(&b[31..38], &c[31..38], 4, 50, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 31, 38), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_4::new(&mut c[..]); m.set_raw_f50(r); }
            assert!(updated::<true>(&b[31..38], &c[31..38], 4, 50, r as u64) && others(&b, &c, 31, 38), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[38..45], 4, 51);
            assert!(s.get_raw_f51() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f51() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S4_4::new(&mut c[..]); m.set_f51(v); }
            assert!(updated::<true>(&b[38..45], &c[38..45], 4, 51, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 38, 45), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_4::new(&mut c[..]); m.set_raw_f51(r); }
            assert!(updated::<true>(&b[38..45], &c[38..45], 4, 51, r as u64) && others(&b, &c, 38, 45), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[45..52], 4, 52);
            assert!(s.get_raw_f52() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f52() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S4_4::new(&mut c[..]); m.set_f52(v); }
            assert!(updated::<true>(&b[45..52], &c[45..52], 4, 52, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 45, 52), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_4::new(&mut c[..]); m.set_raw_f52(r); }
            assert!(updated::<true>(&b[45..52], &c[45..52], 4, 52, r as u64) && others(&b, &c, 45, 52), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o4_g5() {
        use crate::ubet::*;
        const N: usize = 62;
        assert!(<S4_5<()> as FixedSize>::SIZE == N && SIZE_S4_5 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S4_5::new(&b[..]);
        {
            let raw = field::<true>(&b[0..8], 4, 53);
            assert!(s.get_raw_f53() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f53() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S4_5::new(&mut c[..]); m.set_f53(v); }
            assert!(updated::<true>(&b[0..8], &c[0..8], 4, 53, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_5::new(&mut c[..]); m.set_raw_f53(r); }
            assert!(updated::<true>(&b[0..8], &c[0..8], 4, 53, r as u64) && others(&b, &c, 0, 8), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[7..15], 4, 54);
            assert!(s.get_raw_f54() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f54() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S4_5::new(&mut c[..]); m.set_f54(v); }
            assert!(updated::<true>(&b[7..15], &c[7..15], 4, 54, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 15), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_5::new(&mut c[..]); m.set_raw_f54(r); }
            assert!(updated::<true>(&b[7..15], &c[7..15], 4, 54, r as u64) && others(&b, &c, 7, 15), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[14..22], 4, 55);
            assert!(s.get_raw_f55() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f55() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S4_5::new(&mut c[..]); m.set_f55(v); }
            assert!(updated::<true>(&b[14..22], &c[14..22], 4, 55, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 14, 22), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_5::new(&mut c[..]); m.set_raw_f55(r); }
            assert!(updated::<true>(&b[14..22], &c[14..22], 4, 55, r as u64) && others(&b, &c, 14, 22), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[21..29], 4, 58);
            assert!(s.get_raw_f58() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f58() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S4_5::new(&mut c[..]); m.set_f58(v); }
            assert!(updated::<true>(&b[21..29], &c[21..29], 4, 58, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 21, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_5::new(&mut c[..]); m.set_raw_f58(r); }
            assert!(updated::<true>(&b[21..29], &c[21..29], 4, 58, r as u64) && others(&b, &c, 21, 29), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[29..37], 4, 59);
            assert!(s.get_raw_f59() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f59() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S4_5::new(&mut c[..]); m.set_f59(v); }
            assert!(updated::<true>(&b[29..37], &c[29..37], 4, 59, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 29, 37), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_5::new(&mut c[..]); m.set_raw_f59(r); }
            assert!(updated::<true>(&b[29..37], &c[29..37], 4, 59, r as u64) && others(&b, &c, 29, 37), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[37..45], 4, 60);
            assert!(s.get_raw_f60() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f60() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S4_5::new(&mut c[..]); m.set_f60(v); }
            assert!(updated::<true>(&b[37..45], &c[37..45], 4, 60, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 37, 45), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_5::new(&mut c[..]); m.set_raw_f60(r); }
            assert!(updated::<true>(&b[37..45], &c[37..45], 4, 60, r as u64) && others(&b, &c, 37, 45), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[45..54], 4, 61);
            assert!(s.get_raw_f61() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f61() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S4_5::new(&mut c[..]); m.set_f61(v); }
            assert!(updated::<true>(&b[45..54], &c[45..54], 4, 61, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 45, 54), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_5::new(&mut c[..]); m.set_raw_f61(r); }
            assert!(updated::<true>(&b[45..54], &c[45..54], 4, 61, r as u64) && others(&b, &c, 45, 54), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[53..62], 4, 62);
            assert!(s.get_raw_f62() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f62() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S4_5::new(&mut c[..]); m.set_f62(v); }
            assert!(updated::<true>(&b[53..62], &c[53..62], 4, 62, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 53, 62), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_5::new(&mut c[..]); m.set_raw_f62(r); }
            assert!(updated::<true>(&b[53..62], &c[53..62], 4, 62, r as u64) && others(&b, &c, 53, 62), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o5_g0() {
        use crate::ubet::*;
        const N: usize = 13;
        assert!(<S5_0<()> as FixedSize>::SIZE == N && SIZE_S5_0 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S5_0::new(&b[..]);
        {
            let raw = field::<true>(&b[0..1], 5, 2);
            assert!(s.get_raw_f2() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f2() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S5_0::new(&mut c[..]); m.set_f2(v); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 5, 2, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_0::new(&mut c[..]); m.set_raw_f2(r); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 5, 2, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[1..3], 5, 4);
            assert!(s.get_raw_f4() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f4() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S5_0::new(&mut c[..]); m.set_f4(v); }
            assert!(updated::<true>(&b[1..3], &c[1..3], 5, 4, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_0::new(&mut c[..]); m.set_raw_f4(r); }
            assert!(updated::<true>(&b[1..3], &c[1..3], 5, 4, r as u64) && others(&b, &c, 1, 3), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[2..4], 5, 5);
            assert!(s.get_raw_f5() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f5() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S5_0::new(&mut c[..]); m.set_f5(v); }
            assert!(updated::<true>(&b[2..4], &c[2..4], 5, 5, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_0::new(&mut c[..]); m.set_raw_f5(r); }
            assert!(updated::<true>(&b[2..4], &c[2..4], 5, 5, r as u64) && others(&b, &c, 2, 4), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[3..5], 5, 6);
            assert!(s.get_raw_f6() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f6() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S5_0::new(&mut c[..]); m.set_f6(v); }
            assert!(updated::<true>(&b[3..5], &c[3..5], 5, 6, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_0::new(&mut c[..]); m.set_raw_f6(r); }
            assert!(updated::<true>(&b[3..5], &c[3..5], 5, 6, r as u64) && others(&b, &c, 3, 5), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[4..6], 5, 10);
            assert!(s.get_raw_f10() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f10() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S5_0::new(&mut c[..]); m.set_f10(v); }
            assert!(updated::<true>(&b[4..6], &c[4..6], 5, 10, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_0::new(&mut c[..]); m.set_raw_f10(r); }
            assert!(updated::<true>(&b[4..6], &c[4..6], 5, 10, r as u64) && others(&b, &c, 4, 6), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[6..8], 5, 11);
            assert!(s.get_raw_f11() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f11() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S5_0::new(&mut c[..]); m.set_f11(v); }
            assert!(updated::<true>(&b[6..8], &c[6..8], 5, 11, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_0::new(&mut c[..]); m.set_raw_f11(r); }
            assert!(updated::<true>(&b[6..8], &c[6..8], 5, 11, r as u64) && others(&b, &c, 6, 8), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[8..11], 5, 12);
            assert!(s.get_raw_f12() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f12() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S5_0::new(&mut c[..]); m.set_f12(v); }
            assert!(updated::<true>(&b[8..11], &c[8..11], 5, 12, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 8, 11), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_0::new(&mut c[..]); m.set_raw_f12(r); }
            assert!(updated::<true>(&b[8..11], &c[8..11], 5, 12, r as u64) && others(&b, &c, 8, 11), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[10..13], 5, 13);
            assert!(s.get_raw_f13() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f13() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S5_0::new(&mut c[..]); m.set_f13(v); }
            assert!(updated::<true>(&b[10..13], &c[10..13], 5, 13, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_0::new(&mut c[..]); m.set_raw_f13(r); }
            assert!(updated::<true>(&b[10..13], &c[10..13], 5, 13, r as u64) && others(&b, &c, 10, 13), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o5_g1() {
        use crate::ubet::*;
        const N: usize = 23;
        assert!(<S5_1<()> as FixedSize>::SIZE == N && SIZE_S5_1 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S5_1::new(&b[..]);
        {
            let raw = field::<true>(&b[0..3], 5, 14);
            assert!(s.get_raw_f14() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f14() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S5_1::new(&mut c[..]); m.set_f14(v); }
            assert!(updated::<true>(&b[0..3], &c[0..3], 5, 14, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_1::new(&mut c[..]); m.set_raw_f14(r); }
            assert!(updated::<true>(&b[0..3], &c[0..3], 5, 14, r as u64) && others(&b, &c, 0, 3), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[2..5], 5, 15);
            assert!(s.get_raw_f15() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f15() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S5_1::new(&mut c[..]); m.set_f15(v); }
            assert!(updated::<true>(&b[2..5], &c[2..5], 5, 15, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_1::new(&mut c[..]); m.set_raw_f15(r); }
            assert!(updated::<true>(&b[2..5], &c[2..5], 5, 15, r as u64) && others(&b, &c, 2, 5), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[4..7], 5, 18);
            assert!(s.get_raw_f18() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f18() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S5_1::new(&mut c[..]); m.set_f18(v); }
            assert!(updated::<true>(&b[4..7], &c[4..7], 5, 18, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_1::new(&mut c[..]); m.set_raw_f18(r); }
            assert!(updated::<true>(&b[4..7], &c[4..7], 5, 18, r as u64) && others(&b, &c, 4, 7), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[7..10], 5, 19);
            assert!(s.get_raw_f19() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f19() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S5_1::new(&mut c[..]); m.set_f19(v); }
            assert!(updated::<true>(&b[7..10], &c[7..10], 5, 19, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_1::new(&mut c[..]); m.set_raw_f19(r); }
            assert!(updated::<true>(&b[7..10], &c[7..10], 5, 19, r as u64) && others(&b, &c, 7, 10), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[10..14], 5, 20);
            assert!(s.get_raw_f20() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f20() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S5_1::new(&mut c[..]); m.set_f20(v); }
            assert!(updated::<true>(&b[10..14], &c[10..14], 5, 20, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 14), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_1::new(&mut c[..]); m.set_raw_f20(r); }
            assert!(updated::<true>(&b[10..14], &c[10..14], 5, 20, r as u64) && others(&b, &c, 10, 14), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[13..17], 5, 21);
            assert!(s.get_raw_f21() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f21() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S5_1::new(&mut c[..]); m.set_f21(v); }
            assert!(updated::<true>(&b[13..17], &c[13..17], 5, 21, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 13, 17), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_1::new(&mut c[..]); m.set_raw_f21(r); }
            assert!(updated::<true>(&b[13..17], &c[13..17], 5, 21, r as u64) && others(&b, &c, 13, 17), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[16..20], 5, 22);
            assert!(s.get_raw_f22() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f22() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S5_1::new(&mut c[..]); m.set_f22(v); }
            assert!(updated::<true>(&b[16..20], &c[16..20], 5, 22, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_1::new(&mut c[..]); m.set_raw_f22(r); }
            assert!(updated::<true>(&b[16..20], &c[16..20], 5, 22, r as u64) && others(&b, &c, 16, 20), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[19..23], 5, 23);
            assert!(s.get_raw_f23() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f23() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S5_1::new(&mut c[..]); m.set_f23(v); }
            assert!(updated::<true>(&b[19..23], &c[19..23], 5, 23, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 19, 23), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_1::new(&mut c[..]); m.set_raw_f23(r); }
            assert!(updated::<true>(&b[19..23], &c[19..23], 5, 23, r as u64) && others(&b, &c, 19, 23), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o5_g2() {
        use crate::ubet::*;
        const N: usize = 34;
        assert!(<S5_2<()> as FixedSize>::SIZE == N && SIZE_S5_2 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S5_2::new(&b[..]);
        {
            let raw = field::<true>(&b[0..4], 5, 26);
            assert!(s.get_raw_f26() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f26() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S5_2::new(&mut c[..]); m.set_f26(v); }
            assert!(updated::<true>(&b[0..4], &c[0..4], 5, 26, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_2::new(&mut c[..]); m.set_raw_f26(r); }
            assert!(updated::<true>(&b[0..4], &c[0..4], 5, 26, r as u64) && others(&b, &c, 0, 4), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[4..8], 5, 27);
            assert!(s.get_raw_f27() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f27() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S5_2::new(&mut c[..]); m.set_f27(v); }
            assert!(updated::<true>(&b[4..8], &c[4..8], 5, 27, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_2::new(&mut c[..]); m.set_raw_f27(r); }
            assert!(updated::<true>(&b[4..8], &c[4..8], 5, 27, r as u64) && others(&b, &c, 4, 8), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[8..13], 5, 28);
            assert!(s.get_raw_f28() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f28() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S5_2::new(&mut c[..]); m.set_f28(v); }
            assert!(updated::<true>(&b[8..13], &c[8..13], 5, 28, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 8, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_2::new(&mut c[..]); m.set_raw_f28(r); }
            assert!(updated::<true>(&b[8..13], &c[8..13], 5, 28, r as u64) && others(&b, &c, 8, 13), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[12..17], 5, 29);
            assert!(s.get_raw_f29() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f29() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S5_2::new(&mut c[..]); m.set_f29(v); }
            assert!(updated::<true>(&b[12..17], &c[12..17], 5, 29, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 17), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_2::new(&mut c[..]); m.set_raw_f29(r); }
            assert!(updated::<true>(&b[12..17], &c[12..17], 5, 29, r as u64) && others(&b, &c, 12, 17), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[16..21], 5, 30);
            assert!(s.get_raw_f30() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f30() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S5_2::new(&mut c[..]); m.set_f30(v); }
            assert!(updated::<true>(&b[16..21], &c[16..21], 5, 30, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 21), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_2::new(&mut c[..]); m.set_raw_f30(r); }
            assert!(updated::<true>(&b[16..21], &c[16..21], 5, 30, r as u64) && others(&b, &c, 16, 21), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[20..25], 5, 31);
            assert!(s.get_raw_f31() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f31() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S5_2::new(&mut c[..]); m.set_f31(v); }
            assert!(updated::<true>(&b[20..25], &c[20..25], 5, 31, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 25), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_2::new(&mut c[..]); m.set_raw_f31(r); }
            assert!(updated::<true>(&b[20..25], &c[20..25], 5, 31, r as u64) && others(&b, &c, 20, 25), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[24..29], 5, 34);
            assert!(s.get_raw_f34() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f34() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S5_2::new(&mut c[..]); m.set_f34(v); }
            assert!(updated::<true>(&b[24..29], &c[24..29], 5, 34, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 24, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_2::new(&mut c[..]); m.set_raw_f34(r); }
            assert!(updated::<true>(&b[24..29], &c[24..29], 5, 34, r as u64) && others(&b, &c, 24, 29), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[29..34], 5, 35);
            assert!(s.get_raw_f35() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f35() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S5_2::new(&mut c[..]); m.set_f35(v); }
            assert!(updated::<true>(&b[29..34], &c[29..34], 5, 35, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 29, 34), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_2::new(&mut c[..]); m.set_raw_f35(r); }
            assert!(updated::<true>(&b[29..34], &c[29..34], 5, 35, r as u64) && others(&b, &c, 29, 34), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o5_g3() {
        use crate::ubet::*;
        const N: usize = 45;
        assert!(<S5_3<()> as FixedSize>::SIZE == N && SIZE_S5_3 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S5_3::new(&b[..]);
        {
            let raw = field::<true>(&b[0..6], 5, 36);
            assert!(s.get_raw_f36() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f36() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S5_3::new(&mut c[..]); m.set_f36(v); }
            assert!(updated::<true>(&b[0..6], &c[0..6], 5, 36, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_3::new(&mut c[..]); m.set_raw_f36(r); }
            assert!(updated::<true>(&b[0..6], &c[0..6], 5, 36, r as u64) && others(&b, &c, 0, 6), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[5..11], 5, 37);
            assert!(s.get_raw_f37() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f37() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S5_3::new(&mut c[..]); m.set_f37(v); }
            assert!(updated::<true>(&b[5..11], &c[5..11], 5, 37, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 11), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_3::new(&mut c[..]); m.set_raw_f37(r); }
            assert!(updated::<true>(&b[5..11], &c[5..11], 5, 37, r as u64) && others(&b, &c, 5, 11), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[10..16], 5, 38);
            assert!(s.get_raw_f38() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f38() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S5_3::new(&mut c[..]); m.set_f38(v); }
            assert!(updated::<true>(&b[10..16], &c[10..16], 5, 38, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 16), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_3::new(&mut c[..]); m.set_raw_f38(r); }
            assert!(updated::<true>(&b[10..16], &c[10..16], 5, 38, r as u64) && others(&b, &c, 10, 16), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[15..21], 5, 39);
            assert!(s.get_raw_f39() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f39() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S5_3::new(&mut c[..]); m.set_f39(v); }
            assert!(updated::<true>(&b[15..21], &c[15..21], 5, 39, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 15, 21), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_3::new(&mut c[..]); m.set_raw_f39(r); }
            assert!(updated::<true>(&b[15..21], &c[15..21], 5, 39, r as u64) && others(&b, &c, 15, 21), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[20..26], 5, 41);
            assert!(s.get_raw_f41() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f41() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S5_3::new(&mut c[..]); m.set_f41(v); }
            assert!(updated::<true>(&b[20..26], &c[20..26], 5, 41, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 26), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_3::new(&mut c[..]); m.set_raw_f41(r); }
            assert!(updated::<true>(&b[20..26], &c[20..26], 5, 41, r as u64) && others(&b, &c, 20, 26), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[26..32], 5, 42);
            assert!(s.get_raw_f42() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f42() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S5_3::new(&mut c[..]); m.set_f42(v); }
            assert!(updated::<true>(&b[26..32], &c[26..32], 5, 42, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 26, 32), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_3::new(&mut c[..]); m.set_raw_f42(r); }
            assert!(updated::<true>(&b[26..32], &c[26..32], 5, 42, r as u64) && others(&b, &c, 26, 32), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[32..38], 5, 43);
            assert!(s.get_raw_f43() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f43() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S5_3::new(&mut c[..]); m.set_f43(v); }
            assert!(updated::<true>(&b[32..38], &c[32..38], 5, 43, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 32, 38), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_3::new(&mut c[..]); m.set_raw_f43(r); }
            assert!(updated::<true>(&b[32..38], &c[32..38], 5, 43, r as u64) && others(&b, &c, 32, 38), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[38..45], 5, 44);
            assert!(s.get_raw_f44() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f44() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S5_3::new(&mut c[..]); m.set_f44(v); }
            assert!(updated::<true>(&b[38..45], &c[38..45], 5, 44, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 38, 45), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_3::new(&mut c[..]); m.set_raw_f44(r); }
            assert!(updated::<true>(&b[38..45], &c[38..45], 5, 44, r as u64) && others(&b, &c, 38, 45), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o5_g4() {
        use crate::ubet::*;
        const N: usize = 53;
        assert!(<S5_4<()> as FixedSize>::SIZE == N && SIZE_S5_4 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S5_4::new(&b[..]);
        {
            let raw = field::<true>(&b[0..7], 5, 45);
            assert!(s.get_raw_f45() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f45() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S5_4::new(&mut c[..]); m.set_f45(v); }
            assert!(updated::<true>(&b[0..7], &c[0..7], 5, 45, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_4::new(&mut c[..]); m.set_raw_f45(r); }
            assert!(updated::<true>(&b[0..7], &c[0..7], 5, 45, r as u64) && others(&b, &c, 0, 7), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[6..13], 5, 46);
            assert!(s.get_raw_f46() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f46() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S5_4::new(&mut c[..]); m.set_f46(v); }
            assert!(updated::<true>(&b[6..13], &c[6..13], 5, 46, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_4::new(&mut c[..]); m.set_raw_f46(r); }
            assert!(updated::<true>(&b[6..13], &c[6..13], 5, 46, r as u64) && others(&b, &c, 6, 13), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[12..19], 5, 47);
            assert!(s.get_raw_f47() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f47() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S5_4::new(&mut c[..]); m.set_f47(v); }
            assert!(updated::<true>(&b[12..19], &c[12..19], 5, 47, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_4::new(&mut c[..]); m.set_raw_f47(r); }
            assert!(updated::<true>(&b[12..19], &c[12..19], 5, 47, r as u64) && others(&b, &c, 12, 19), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[18..25], 5, 48);
            assert!(s.get_raw_f48() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f48() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S5_4::new(&mut c[..]); m.set_f48(v); }
            assert!(updated::<true>(&b[18..25], &c[18..25], 5, 48, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 18, 25), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_4::new(&mut c[..]); m.set_raw_f48(r); }
            assert!(updated::<true>(&b[18..25], &c[18..25], 5, 48, r as u64) && others(&b, &c, 18, 25), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[24..31], 5, 49);
            assert!(s.get_raw_f49() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f49() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S5_4::new(&mut c[..]); m.set_f49(v); }
            assert!(updated::<true>(&b[24..31], &c[24..31], 5, 49, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 24, 31), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_4::new(&mut c[..]); m.set_raw_f49(r); }
            assert!(updated::<true>(&b[24..31], &c[24..31], 5, 49, r as u64) && others(&b, &c, 24, 31), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[31..38], 5, 50);
            assert!(s.get_raw_f50() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f50() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S5_4::new(&mut c[..]); m.set_f50(v); }
            assert!(updated::<true>(&b[31..38], &c[31..38], 5, 50, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 31, 38), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_4::new(&mut c[..]); m.set_raw_f50(r); }
            assert!(updated::<true>(&b[31..38], &c[31..38], 5, 50, r as u64) && others(&b, &c, 31, 38), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[38..45], 5, 51);
            assert!(s.get_raw_f51() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f51() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S5_4::new(&mut c[..]); m.set_f51(v); }
            assert!(updated::<true>(&b[38..45], &c[38..45], 5, 51, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 38, 45), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_4::new(&mut c[..]); m.set_raw_f51(r); }
            assert!(updated::<true>(&b[38..45], &c[38..45], 5, 51, r as u64) && others(&b, &c, 38, 45), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[45..53], 5, 52);
            assert!(s.get_raw_f52() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f52() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S5_4::new(&mut c[..]); m.set_f52(v); }
            assert!(updated::<true>(&b[45..53], &c[45..53], 5, 52, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 45, 53), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_4::new(&mut c[..]); m.set_raw_f52(r); }
            assert!(updated::<true>(&b[45..53], &c[45..53], 5, 52, r as u64) && others(&b, &c, 45, 53), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o5_g5() {
        use crate::ubet::*;
        const N: usize = 62;
        assert!(<S5_5<()> as FixedSize>::SIZE == N && SIZE_S5_5 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S5_5::new(&b[..]);
        {
            let raw = field::<true>(&b[0..8], 5, 53);
            assert!(s.get_raw_f53() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f53() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S5_5::new(&mut c[..]); m.set_f53(v); }
            assert!(updated::<true>(&b[0..8], &c[0..8], 5, 53, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_5::new(&mut c[..]); m.set_raw_f53(r); }
            assert!(updated::<true>(&b[0..8], &c[0..8], 5, 53, r as u64) && others(&b, &c, 0, 8), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[7..15], 5, 54);
            assert!(s.get_raw_f54() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f54() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S5_5::new(&mut c[..]); m.set_f54(v); }
            assert!(updated::<true>(&b[7..15], &c[7..15], 5, 54, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 15), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_5::new(&mut c[..]); m.set_raw_f54(r); }
            assert!(updated::<true>(&b[7..15], &c[7..15], 5, 54, r as u64) && others(&b, &c, 7, 15), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[14..22], 5, 55);
            assert!(s.get_raw_f55() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f55() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S5_5::new(&mut c[..]); m.set_f55(v); }
            assert!(updated::<true>(&b[14..22], &c[14..22], 5, 55, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 14, 22), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_5::new(&mut c[..]); m.set_raw_f55(r); }
            assert!(updated::<true>(&b[14..22], &c[14..22], 5, 55, r as u64) && others(&b, &c, 14, 22), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[21..29], 5, 58);
            assert!(s.get_raw_f58() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f58() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S5_5::new(&mut c[..]); m.set_f58(v); }
            assert!(updated::<true>(&b[21..29], &c[21..29], 5, 58, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 21, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_5::new(&mut c[..]); m.set_raw_f58(r); }
            assert!(updated::<true>(&b[21..29], &c[21..29], 5, 58, r as u64) && others(&b, &c, 21, 29), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[29..37], 5, 59);
            assert!(s.get_raw_f59() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f59() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S5_5::new(&mut c[..]); m.set_f59(v); }
            assert!(updated::<true>(&b[29..37], &c[29..37], 5, 59, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 29, 37), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_5::new(&mut c[..]); m.set_raw_f59(r); }
            assert!(updated::<true>(&b[29..37], &c[29..37], 5, 59, r as u64) && others(&b, &c, 29, 37), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[37..46], 5, 60);
            assert!(s.get_raw_f60() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f60() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S5_5::new(&mut c[..]); m.set_f60(v); }
            assert!(updated::<true>(&b[37..46], &c[37..46], 5, 60, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 37, 46), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_5::new(&mut c[..]); m.set_raw_f60(r); }
            assert!(updated::<true>(&b[37..46], &c[37..46], 5, 60, r as u64) && others(&b, &c, 37, 46), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[45..54], 5, 61);
            assert!(s.get_raw_f61() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f61() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S5_5::new(&mut c[..]); m.set_f61(v); }
            assert!(updated::<true>(&b[45..54], &c[45..54], 5, 61, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 45, 54), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_5::new(&mut c[..]); m.set_raw_f61(r); }
            assert!(updated::<true>(&b[45..54], &c[45..54], 5, 61, r as u64) && others(&b, &c, 45, 54), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[53..62], 5, 62);
            assert!(s.get_raw_f62() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f62() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S5_5::new(&mut c[..]); m.set_f62(v); }
            assert!(updated::<true>(&b[53..62], &c[53..62], 5, 62, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 53, 62), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_5::new(&mut c[..]); m.set_raw_f62(r); }
            assert!(updated::<true>(&b[53..62], &c[53..62], 5, 62, r as u64) && others(&b, &c, 53, 62), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o6_g0() {
        use crate::ubet::*;
        const N: usize = 13;
        assert!(<S6_0<()> as FixedSize>::SIZE == N && SIZE_S6_0 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S6_0::new(&b[..]);
        {
            let raw = field::<true>(&b[0..1], 6, 2);
            assert!(s.get_raw_f2() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f2() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S6_0::new(&mut c[..]); m.set_f2(v); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 6, 2, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_0::new(&mut c[..]); m.set_raw_f2(r); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 6, 2, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[1..3], 6, 4);
            assert!(s.get_raw_f4() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f4() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S6_0::new(&mut c[..]); m.set_f4(v); }
            assert!(updated::<true>(&b[1..3], &c[1..3], 6, 4, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_0::new(&mut c[..]); m.set_raw_f4(r); }
            assert!(updated::<true>(&b[1..3], &c[1..3], 6, 4, r as u64) && others(&b, &c, 1, 3), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[2..4], 6, 5);
            assert!(s.get_raw_f5() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f5() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S6_0::new(&mut c[..]); m.set_f5(v); }
            assert!(updated::<true>(&b[2..4], &c[2..4], 6, 5, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_0::new(&mut c[..]); m.set_raw_f5(r); }
            assert!(updated::<true>(&b[2..4], &c[2..4], 6, 5, r as u64) && others(&b, &c, 2, 4), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[3..5], 6, 6);
            assert!(s.get_raw_f6() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f6() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S6_0::new(&mut c[..]); m.set_f6(v); }
            assert!(updated::<true>(&b[3..5], &c[3..5], 6, 6, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_0::new(&mut c[..]); m.set_raw_f6(r); }
            assert!(updated::<true>(&b[3..5], &c[3..5], 6, 6, r as u64) && others(&b, &c, 3, 5), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[4..6], 6, 10);
            assert!(s.get_raw_f10() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f10() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S6_0::new(&mut c[..]); m.set_f10(v); }
            assert!(updated::<true>(&b[4..6], &c[4..6], 6, 10, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_0::new(&mut c[..]); m.set_raw_f10(r); }
            assert!(updated::<true>(&b[4..6], &c[4..6], 6, 10, r as u64) && others(&b, &c, 4, 6), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[6..9], 6, 11);
            assert!(s.get_raw_f11() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f11() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S6_0::new(&mut c[..]); m.set_f11(v); }
            assert!(updated::<true>(&b[6..9], &c[6..9], 6, 11, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 9), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_0::new(&mut c[..]); m.set_raw_f11(r); }
            assert!(updated::<true>(&b[6..9], &c[6..9], 6, 11, r as u64) && others(&b, &c, 6, 9), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[8..11], 6, 12);
            assert!(s.get_raw_f12() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f12() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S6_0::new(&mut c[..]); m.set_f12(v); }
            assert!(updated::<true>(&b[8..11], &c[8..11], 6, 12, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 8, 11), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_0::new(&mut c[..]); m.set_raw_f12(r); }
            assert!(updated::<true>(&b[8..11], &c[8..11], 6, 12, r as u64) && others(&b, &c, 8, 11), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[10..13], 6, 13);
            assert!(s.get_raw_f13() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f13() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S6_0::new(&mut c[..]); m.set_f13(v); }
            assert!(updated::<true>(&b[10..13], &c[10..13], 6, 13, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_0::new(&mut c[..]); m.set_raw_f13(r); }
            assert!(updated::<true>(&b[10..13], &c[10..13], 6, 13, r as u64) && others(&b, &c, 10, 13), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o6_g1() {
        use crate::ubet::*;
        const N: usize = 23;
        assert!(<S6_1<()> as FixedSize>::SIZE == N && SIZE_S6_1 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S6_1::new(&b[..]);
        {
            let raw = field::<true>(&b[0..3], 6, 14);
            assert!(s.get_raw_f14() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f14() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S6_1::new(&mut c[..]); m.set_f14(v); }
            assert!(updated::<true>(&b[0..3], &c[0..3], 6, 14, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_1::new(&mut c[..]); m.set_raw_f14(r); }
            assert!(updated::<true>(&b[0..3], &c[0..3], 6, 14, r as u64) && others(&b, &c, 0, 3), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[2..5], 6, 15);
            assert!(s.get_raw_f15() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f15() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S6_1::new(&mut c[..]); m.set_f15(v); }
            assert!(updated::<true>(&b[2..5], &c[2..5], 6, 15, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_1::new(&mut c[..]); m.set_raw_f15(r); }
            assert!(updated::<true>(&b[2..5], &c[2..5], 6, 15, r as u64) && others(&b, &c, 2, 5), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[4..7], 6, 18);
            assert!(s.get_raw_f18() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f18() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S6_1::new(&mut c[..]); m.set_f18(v); }
            assert!(updated::<true>(&b[4..7], &c[4..7], 6, 18, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_1::new(&mut c[..]); m.set_raw_f18(r); }
            assert!(updated::<true>(&b[4..7], &c[4..7], 6, 18, r as u64) && others(&b, &c, 4, 7), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[7..11], 6, 19);
            assert!(s.get_raw_f19() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f19() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S6_1::new(&mut c[..]); m.set_f19(v); }
            assert!(updated::<true>(&b[7..11], &c[7..11], 6, 19, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 11), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_1::new(&mut c[..]); m.set_raw_f19(r); }
            assert!(updated::<true>(&b[7..11], &c[7..11], 6, 19, r as u64) && others(&b, &c, 7, 11), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[10..14], 6, 20);
            assert!(s.get_raw_f20() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f20() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S6_1::new(&mut c[..]); m.set_f20(v); }
            assert!(updated::<true>(&b[10..14], &c[10..14], 6, 20, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 14), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_1::new(&mut c[..]); m.set_raw_f20(r); }
            assert!(updated::<true>(&b[10..14], &c[10..14], 6, 20, r as u64) && others(&b, &c, 10, 14), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[13..17], 6, 21);
            assert!(s.get_raw_f21() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f21() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S6_1::new(&mut c[..]); m.set_f21(v); }
            assert!(updated::<true>(&b[13..17], &c[13..17], 6, 21, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 13, 17), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_1::new(&mut c[..]); m.set_raw_f21(r); }
            assert!(updated::<true>(&b[13..17], &c[13..17], 6, 21, r as u64) && others(&b, &c, 13, 17), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[16..20], 6, 22);
            assert!(s.get_raw_f22() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f22() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S6_1::new(&mut c[..]); m.set_f22(v); }
            assert!(updated::<true>(&b[16..20], &c[16..20], 6, 22, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_1::new(&mut c[..]); m.set_raw_f22(r); }
            assert!(updated::<true>(&b[16..20], &c[16..20], 6, 22, r as u64) && others(&b, &c, 16, 20), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[19..23], 6, 23);
            assert!(s.get_raw_f23() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f23() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S6_1::new(&mut c[..]); m.set_f23(v); }
            assert!(updated::<true>(&b[19..23], &c[19..23], 6, 23, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 19, 23), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_1::new(&mut c[..]); m.set_raw_f23(r); }
            assert!(updated::<true>(&b[19..23], &c[19..23], 6, 23, r as u64) && others(&b, &c, 19, 23), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o6_g2() {
        use crate::ubet::*;
        const N: usize = 35;
        assert!(<S6_2<()> as FixedSize>::SIZE == N && SIZE_S6_2 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S6_2::new(&b[..]);
        {
            let raw = field::<true>(&b[0..4], 6, 26);
            assert!(s.get_raw_f26() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f26() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S6_2::new(&mut c[..]); m.set_f26(v); }
            assert!(updated::<true>(&b[0..4], &c[0..4], 6, 26, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_2::new(&mut c[..]); m.set_raw_f26(r); }
            assert!(updated::<true>(&b[0..4], &c[0..4], 6, 26, r as u64) && others(&b, &c, 0, 4), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[4..9], 6, 27);
            assert!(s.get_raw_f27() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f27() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S6_2::new(&mut c[..]); m.set_f27(v); }
            assert!(updated::<true>(&b[4..9], &c[4..9], 6, 27, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 9), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_2::new(&mut c[..]); m.set_raw_f27(r); }
            assert!(updated::<true>(&b[4..9], &c[4..9], 6, 27, r as u64) && others(&b, &c, 4, 9), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[8..13], 6, 28);
            assert!(s.get_raw_f28() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f28() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S6_2::new(&mut c[..]); m.set_f28(v); }
            assert!(updated::<true>(&b[8..13], &c[8..13], 6, 28, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 8, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_2::new(&mut c[..]); m.set_raw_f28(r); }
            assert!(updated::<true>(&b[8..13], &c[8..13], 6, 28, r as u64) && others(&b, &c, 8, 13), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[12..17], 6, 29);
            assert!(s.get_raw_f29() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f29() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S6_2::new(&mut c[..]); m.set_f29(v); }
            assert!(updated::<true>(&b[12..17], &c[12..17], 6, 29, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 17), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_2::new(&mut c[..]); m.set_raw_f29(r); }
            assert!(updated::<true>(&b[12..17], &c[12..17], 6, 29, r as u64) && others(&b, &c, 12, 17), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[16..21], 6, 30);
            assert!(s.get_raw_f30() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f30() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S6_2::new(&mut c[..]); m.set_f30(v); }
            assert!(updated::<true>(&b[16..21], &c[16..21], 6, 30, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 21), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_2::new(&mut c[..]); m.set_raw_f30(r); }
            assert!(updated::<true>(&b[16..21], &c[16..21], 6, 30, r as u64) && others(&b, &c, 16, 21), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[20..25], 6, 31);
            assert!(s.get_raw_f31() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f31() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S6_2::new(&mut c[..]); m.set_f31(v); }
            assert!(updated::<true>(&b[20..25], &c[20..25], 6, 31, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 25), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_2::new(&mut c[..]); m.set_raw_f31(r); }
            assert!(updated::<true>(&b[20..25], &c[20..25], 6, 31, r as u64) && others(&b, &c, 20, 25), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[24..29], 6, 34);
            assert!(s.get_raw_f34() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f34() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S6_2::new(&mut c[..]); m.set_f34(v); }
            assert!(updated::<true>(&b[24..29], &c[24..29], 6, 34, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 24, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_2::new(&mut c[..]); m.set_raw_f34(r); }
            assert!(updated::<true>(&b[24..29], &c[24..29], 6, 34, r as u64) && others(&b, &c, 24, 29), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[29..35], 6, 35);
            assert!(s.get_raw_f35() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f35() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S6_2::new(&mut c[..]); m.set_f35(v); }
            assert!(updated::<true>(&b[29..35], &c[29..35], 6, 35, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 29, 35), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_2::new(&mut c[..]); m.set_raw_f35(r); }
            assert!(updated::<true>(&b[29..35], &c[29..35], 6, 35, r as u64) && others(&b, &c, 29, 35), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o6_g3() {
        use crate::ubet::*;
        const N: usize = 45;
        assert!(<S6_3<()> as FixedSize>::SIZE == N && SIZE_S6_3 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S6_3::new(&b[..]);
        {
            let raw = field::<true>(&b[0..6], 6, 36);
            assert!(s.get_raw_f36() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f36() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S6_3::new(&mut c[..]); m.set_f36(v); }
            assert!(updated::<true>(&b[0..6], &c[0..6], 6, 36, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_3::new(&mut c[..]); m.set_raw_f36(r); }
            assert!(updated::<true>(&b[0..6], &c[0..6], 6, 36, r as u64) && others(&b, &c, 0, 6), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[5..11], 6, 37);
            assert!(s.get_raw_f37() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f37() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S6_3::new(&mut c[..]); m.set_f37(v); }
            assert!(updated::<true>(&b[5..11], &c[5..11], 6, 37, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 11), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_3::new(&mut c[..]); m.set_raw_f37(r); }
            assert!(updated::<true>(&b[5..11], &c[5..11], 6, 37, r as u64) && others(&b, &c, 5, 11), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[10..16], 6, 38);
            assert!(s.get_raw_f38() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f38() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S6_3::new(&mut c[..]); m.set_f38(v); }
            assert!(updated::<true>(&b[10..16], &c[10..16], 6, 38, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 16), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_3::new(&mut c[..]); m.set_raw_f38(r); }
            assert!(updated::<true>(&b[10..16], &c[10..16], 6, 38, r as u64) && others(&b, &c, 10, 16), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[15..21], 6, 39);
            assert!(s.get_raw_f39() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f39() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S6_3::new(&mut c[..]); m.set_f39(v); }
            assert!(updated::<true>(&b[15..21], &c[15..21], 6, 39, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 15, 21), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_3::new(&mut c[..]); m.set_raw_f39(r); }
            assert!(updated::<true>(&b[15..21], &c[15..21], 6, 39, r as u64) && others(&b, &c, 15, 21), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[20..26], 6, 41);
            assert!(s.get_raw_f41() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f41() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S6_3::new(&mut c[..]); m.set_f41(v); }
            assert!(updated::<true>(&b[20..26], &c[20..26], 6, 41, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 26), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_3::new(&mut c[..]); m.set_raw_f41(r); }
            assert!(updated::<true>(&b[20..26], &c[20..26], 6, 41, r as u64) && others(&b, &c, 20, 26), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[26..32], 6, 42);
            assert!(s.get_raw_f42() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f42() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S6_3::new(&mut c[..]); m.set_f42(v); }
            assert!(updated::<true>(&b[26..32], &c[26..32], 6, 42, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 26, 32), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_3::new(&mut c[..]); m.set_raw_f42(r); }
            assert!(updated::<true>(&b[26..32], &c[26..32], 6, 42, r as u64) && others(&b, &c, 26, 32), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[32..39], 6, 43);
            assert!(s.get_raw_f43() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f43() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S6_3::new(&mut c[..]); m.set_f43(v); }
            assert!(updated::<true>(&b[32..39], &c[32..39], 6, 43, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 32, 39), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_3::new(&mut c[..]); m.set_raw_f43(r); }
            assert!(updated::<true>(&b[32..39], &c[32..39], 6, 43, r as u64) && others(&b, &c, 32, 39), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[38..45], 6, 44);
            assert!(s.get_raw_f44() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f44() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S6_3::new(&mut c[..]); m.set_f44(v); }
            assert!(updated::<true>(&b[38..45], &c[38..45], 6, 44, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 38, 45), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_3::new(&mut c[..]); m.set_raw_f44(r); }
            assert!(updated::<true>(&b[38..45], &c[38..45], 6, 44, r as u64) && others(&b, &c, 38, 45), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o6_g4() {
        use crate::ubet::*;
        const N: usize = 53;
        assert!(<S6_4<()> as FixedSize>::SIZE == N && SIZE_S6_4 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S6_4::new(&b[..]);
        {
            let raw = field::<true>(&b[0..7], 6, 45);
            assert!(s.get_raw_f45() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f45() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S6_4::new(&mut c[..]); m.set_f45(v); }
            assert!(updated::<true>(&b[0..7], &c[0..7], 6, 45, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_4::new(&mut c[..]); m.set_raw_f45(r); }
            assert!(updated::<true>(&b[0..7], &c[0..7], 6, 45, r as u64) && others(&b, &c, 0, 7), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[6..13], 6, 46);
            assert!(s.get_raw_f46() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f46() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S6_4::new(&mut c[..]); m.set_f46(v); }
            assert!(updated::<true>(&b[6..13], &c[6..13], 6, 46, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_4::new(&mut c[..]); m.set_raw_f46(r); }
            assert!(updated::<true>(&b[6..13], &c[6..13], 6, 46, r as u64) && others(&b, &c, 6, 13), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[12..19], 6, 47);
            assert!(s.get_raw_f47() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f47() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S6_4::new(&mut c[..]); m.set_f47(v); }
            assert!(updated::<true>(&b[12..19], &c[12..19], 6, 47, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_4::new(&mut c[..]); m.set_raw_f47(r); }
            assert!(updated::<true>(&b[12..19], &c[12..19], 6, 47, r as u64) && others(&b, &c, 12, 19), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[18..25], 6, 48);
            assert!(s.get_raw_f48() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f48() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S6_4::new(&mut c[..]); m.set_f48(v); }
            assert!(updated::<true>(&b[18..25], &c[18..25], 6, 48, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 18, 25), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_4::new(&mut c[..]); m.set_raw_f48(r); }
            assert!(updated::<true>(&b[18..25], &c[18..25], 6, 48, r as u64) && others(&b, &c, 18, 25), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[24..31], 6, 49);
            assert!(s.get_raw_f49() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f49() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S6_4::new(&mut c[..]); m.set_f49(v); }
            assert!(updated::<true>(&b[24..31], &c[24..31], 6, 49, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 24, 31), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_4::new(&mut c[..]); m.set_raw_f49(r); }
            assert!(updated::<true>(&b[24..31], &c[24..31], 6, 49, r as u64) && others(&b, &c, 24, 31), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[31..38], 6, 50);
            assert!(s.get_raw_f50() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f50() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S6_4::new(&mut c[..]); m.set_f50(v); }
            assert!(updated::<true>(&b[31..38], &c[31..38], 6, 50, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 31, 38), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_4::new(&mut c[..]); m.set_raw_f50(r); }
            assert!(updated::<true>(&b[31..38], &c[31..38], 6, 50, r as u64) && others(&b, &c, 31, 38), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[38..46], 6, 51);
            assert!(s.get_raw_f51() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f51() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S6_4::new(&mut c[..]); m.set_f51(v); }
            assert!(updated::<true>(&b[38..46], &c[38..46], 6, 51, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 38, 46), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_4::new(&mut c[..]); m.set_raw_f51(r); }
            assert!(updated::<true>(&b[38..46], &c[38..46], 6, 51, r as u64) && others(&b, &c, 38, 46), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[45..53], 6, 52);
            assert!(s.get_raw_f52() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f52() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S6_4::new(&mut c[..]); m.set_f52(v); }
            assert!(updated::<true>(&b[45..53], &c[45..53], 6, 52, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 45, 53), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_4::new(&mut c[..]); m.set_raw_f52(r); }
            assert!(updated::<true>(&b[45..53], &c[45..53], 6, 52, r as u64) && others(&b, &c, 45, 53), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o6_g5() {
        use crate::ubet::*;
        const N: usize = 62;
        assert!(<S6_5<()> as FixedSize>::SIZE == N && SIZE_S6_5 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S6_5::new(&b[..]);
        {
            let raw = field::<true>(&b[0..8], 6, 53);
            assert!(s.get_raw_f53() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f53() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S6_5::new(&mut c[..]); m.set_f53(v); }
            assert!(updated::<true>(&b[0..8], &c[0..8], 6, 53, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_5::new(&mut c[..]); m.set_raw_f53(r); }
            assert!(updated::<true>(&b[0..8], &c[0..8], 6, 53, r as u64) && others(&b, &c, 0, 8), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[7..15], 6, 54);
            assert!(s.get_raw_f54() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f54() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S6_5::new(&mut c[..]); m.set_f54(v); }
            assert!(updated::<true>(&b[7..15], &c[7..15], 6, 54, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 15), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_5::new(&mut c[..]); m.set_raw_f54(r); }
            assert!(updated::<true>(&b[7..15], &c[7..15], 6, 54, r as u64) && others(&b, &c, 7, 15), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[14..22], 6, 55);
            assert!(s.get_raw_f55() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f55() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S6_5::new(&mut c[..]); m.set_f55(v); }
            assert!(updated::<true>(&b[14..22], &c[14..22], 6, 55, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 14, 22), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_5::new(&mut c[..]); m.set_raw_f55(r); }
            assert!(updated::<true>(&b[14..22], &c[14..22], 6, 55, r as u64) && others(&b, &c, 14, 22), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[21..29], 6, 58);
            assert!(s.get_raw_f58() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f58() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S6_5::new(&mut c[..]); m.set_f58(v); }
            assert!(updated::<true>(&b[21..29], &c[21..29], 6, 58, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 21, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_5::new(&mut c[..]); m.set_raw_f58(r); }
            assert!(updated::<true>(&b[21..29], &c[21..29], 6, 58, r as u64) && others(&b, &c, 21, 29), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[29..38], 6, 59);
            assert!(s.get_raw_f59() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f59() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S6_5::new(&mut c[..]); m.set_f59(v); }
            assert!(updated::<true>(&b[29..38], &c[29..38], 6, 59, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 29, 38), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_5::new(&mut c[..]); m.set_raw_f59(r); }
            assert!(updated::<true>(&b[29..38], &c[29..38], 6, 59, r as u64) && others(&b, &c, 29, 38), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[37..46], 6, 60);
            assert!(s.get_raw_f60() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f60() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S6_5::new(&mut c[..]); m.set_f60(v); }
            assert!(updated::<true>(&b[37..46], &c[37..46], 6, 60, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 37, 46), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_5::new(&mut c[..]); m.set_raw_f60(r); }
            assert!(updated::<true>(&b[37..46], &c[37..46], 6, 60, r as u64) && others(&b, &c, 37, 46), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[45..54], 6, 61);
            assert!(s.get_raw_f61() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f61() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S6_5::new(&mut c[..]); m.set_f61(v); }
            assert!(updated::<true>(&b[45..54], &c[45..54], 6, 61, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 45, 54), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_5::new(&mut c[..]); m.set_raw_f61(r); }
            assert!(updated::<true>(&b[45..54], &c[45..54], 6, 61, r as u64) && others(&b, &c, 45, 54), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[53..62], 6, 62);
            assert!(s.get_raw_f62() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f62() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S6_5::new(&mut c[..]); m.set_f62(v); }
            assert!(updated::<true>(&b[53..62], &c[53..62], 6, 62, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 53, 62), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_5::new(&mut c[..]); m.set_raw_f62(r); }
            assert!(updated::<true>(&b[53..62], &c[53..62], 6, 62, r as u64) && others(&b, &c, 53, 62), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o7_g0() {
        use crate::ubet::*;
        const N: usize = 13;
        assert!(<S7_0<()> as FixedSize>::SIZE == N && SIZE_S7_0 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S7_0::new(&b[..]);
        {
            let raw = field::<true>(&b[0..2], 7, 2);
            assert!(s.get_raw_f2() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f2() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S7_0::new(&mut c[..]); m.set_f2(v); }
            assert!(updated::<true>(&b[0..2], &c[0..2], 7, 2, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_0::new(&mut c[..]); m.set_raw_f2(r); }
            assert!(updated::<true>(&b[0..2], &c[0..2], 7, 2, r as u64) && others(&b, &c, 0, 2), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[1..3], 7, 4);
            assert!(s.get_raw_f4() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f4() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S7_0::new(&mut c[..]); m.set_f4(v); }
            assert!(updated::<true>(&b[1..3], &c[1..3], 7, 4, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_0::new(&mut c[..]); m.set_raw_f4(r); }
            assert!(updated::<true>(&b[1..3], &c[1..3], 7, 4, r as u64) && others(&b, &c, 1, 3), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[2..4], 7, 5);
            assert!(s.get_raw_f5() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f5() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S7_0::new(&mut c[..]); m.set_f5(v); }
            assert!(updated::<true>(&b[2..4], &c[2..4], 7, 5, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_0::new(&mut c[..]); m.set_raw_f5(r); }
            assert!(updated::<true>(&b[2..4], &c[2..4], 7, 5, r as u64) && others(&b, &c, 2, 4), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[3..5], 7, 6);
            assert!(s.get_raw_f6() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f6() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = S7_0::new(&mut c[..]); m.set_f6(v); }
            assert!(updated::<true>(&b[3..5], &c[3..5], 7, 6, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_0::new(&mut c[..]); m.set_raw_f6(r); }
            assert!(updated::<true>(&b[3..5], &c[3..5], 7, 6, r as u64) && others(&b, &c, 3, 5), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[4..7], 7, 10);
            assert!(s.get_raw_f10() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f10() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S7_0::new(&mut c[..]); m.set_f10(v); }
            assert!(updated::<true>(&b[4..7], &c[4..7], 7, 10, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_0::new(&mut c[..]); m.set_raw_f10(r); }
            assert!(updated::<true>(&b[4..7], &c[4..7], 7, 10, r as u64) && others(&b, &c, 4, 7), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[6..9], 7, 11);
            assert!(s.get_raw_f11() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f11() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S7_0::new(&mut c[..]); m.set_f11(v); }
            assert!(updated::<true>(&b[6..9], &c[6..9], 7, 11, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 9), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_0::new(&mut c[..]); m.set_raw_f11(r); }
            assert!(updated::<true>(&b[6..9], &c[6..9], 7, 11, r as u64) && others(&b, &c, 6, 9), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[8..11], 7, 12);
            assert!(s.get_raw_f12() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f12() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S7_0::new(&mut c[..]); m.set_f12(v); }
            assert!(updated::<true>(&b[8..11], &c[8..11], 7, 12, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 8, 11), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_0::new(&mut c[..]); m.set_raw_f12(r); }
            assert!(updated::<true>(&b[8..11], &c[8..11], 7, 12, r as u64) && others(&b, &c, 8, 11), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[10..13], 7, 13);
            assert!(s.get_raw_f13() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f13() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S7_0::new(&mut c[..]); m.set_f13(v); }
            assert!(updated::<true>(&b[10..13], &c[10..13], 7, 13, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_0::new(&mut c[..]); m.set_raw_f13(r); }
            assert!(updated::<true>(&b[10..13], &c[10..13], 7, 13, r as u64) && others(&b, &c, 10, 13), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o7_g1() {
        use crate::ubet::*;
        const N: usize = 23;
        assert!(<S7_1<()> as FixedSize>::SIZE == N && SIZE_S7_1 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S7_1::new(&b[..]);
        {
            let raw = field::<true>(&b[0..3], 7, 14);
            assert!(s.get_raw_f14() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f14() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S7_1::new(&mut c[..]); m.set_f14(v); }
            assert!(updated::<true>(&b[0..3], &c[0..3], 7, 14, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_1::new(&mut c[..]); m.set_raw_f14(r); }
            assert!(updated::<true>(&b[0..3], &c[0..3], 7, 14, r as u64) && others(&b, &c, 0, 3), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[2..5], 7, 15);
            assert!(s.get_raw_f15() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f15() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = S7_1::new(&mut c[..]); m.set_f15(v); }
            assert!(updated::<true>(&b[2..5], &c[2..5], 7, 15, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_1::new(&mut c[..]); m.set_raw_f15(r); }
            assert!(updated::<true>(&b[2..5], &c[2..5], 7, 15, r as u64) && others(&b, &c, 2, 5), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[4..8], 7, 18);
            assert!(s.get_raw_f18() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f18() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S7_1::new(&mut c[..]); m.set_f18(v); }
            assert!(updated::<true>(&b[4..8], &c[4..8], 7, 18, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_1::new(&mut c[..]); m.set_raw_f18(r); }
            assert!(updated::<true>(&b[4..8], &c[4..8], 7, 18, r as u64) && others(&b, &c, 4, 8), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[7..11], 7, 19);
            assert!(s.get_raw_f19() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f19() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S7_1::new(&mut c[..]); m.set_f19(v); }
            assert!(updated::<true>(&b[7..11], &c[7..11], 7, 19, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 11), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_1::new(&mut c[..]); m.set_raw_f19(r); }
            assert!(updated::<true>(&b[7..11], &c[7..11], 7, 19, r as u64) && others(&b, &c, 7, 11), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[10..14], 7, 20);
            assert!(s.get_raw_f20() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f20() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S7_1::new(&mut c[..]); m.set_f20(v); }
            assert!(updated::<true>(&b[10..14], &c[10..14], 7, 20, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 14), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_1::new(&mut c[..]); m.set_raw_f20(r); }
            assert!(updated::<true>(&b[10..14], &c[10..14], 7, 20, r as u64) && others(&b, &c, 10, 14), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[13..17], 7, 21);
            assert!(s.get_raw_f21() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f21() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S7_1::new(&mut c[..]); m.set_f21(v); }
            assert!(updated::<true>(&b[13..17], &c[13..17], 7, 21, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 13, 17), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_1::new(&mut c[..]); m.set_raw_f21(r); }
            assert!(updated::<true>(&b[13..17], &c[13..17], 7, 21, r as u64) && others(&b, &c, 13, 17), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[16..20], 7, 22);
            assert!(s.get_raw_f22() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f22() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S7_1::new(&mut c[..]); m.set_f22(v); }
            assert!(updated::<true>(&b[16..20], &c[16..20], 7, 22, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_1::new(&mut c[..]); m.set_raw_f22(r); }
            assert!(updated::<true>(&b[16..20], &c[16..20], 7, 22, r as u64) && others(&b, &c, 16, 20), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[19..23], 7, 23);
            assert!(s.get_raw_f23() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f23() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S7_1::new(&mut c[..]); m.set_f23(v); }
            assert!(updated::<true>(&b[19..23], &c[19..23], 7, 23, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 19, 23), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_1::new(&mut c[..]); m.set_raw_f23(r); }
            assert!(updated::<true>(&b[19..23], &c[19..23], 7, 23, r as u64) && others(&b, &c, 19, 23), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o7_g2() {
        use crate::ubet::*;
        const N: usize = 35;
        assert!(<S7_2<()> as FixedSize>::SIZE == N && SIZE_S7_2 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S7_2::new(&b[..]);
        {
            let raw = field::<true>(&b[0..5], 7, 26);
            assert!(s.get_raw_f26() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f26() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S7_2::new(&mut c[..]); m.set_f26(v); }
            assert!(updated::<true>(&b[0..5], &c[0..5], 7, 26, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_2::new(&mut c[..]); m.set_raw_f26(r); }
            assert!(updated::<true>(&b[0..5], &c[0..5], 7, 26, r as u64) && others(&b, &c, 0, 5), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[4..9], 7, 27);
            assert!(s.get_raw_f27() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f27() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S7_2::new(&mut c[..]); m.set_f27(v); }
            assert!(updated::<true>(&b[4..9], &c[4..9], 7, 27, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 9), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_2::new(&mut c[..]); m.set_raw_f27(r); }
            assert!(updated::<true>(&b[4..9], &c[4..9], 7, 27, r as u64) && others(&b, &c, 4, 9), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[8..13], 7, 28);
            assert!(s.get_raw_f28() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f28() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S7_2::new(&mut c[..]); m.set_f28(v); }
            assert!(updated::<true>(&b[8..13], &c[8..13], 7, 28, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 8, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_2::new(&mut c[..]); m.set_raw_f28(r); }
            assert!(updated::<true>(&b[8..13], &c[8..13], 7, 28, r as u64) && others(&b, &c, 8, 13), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[12..17], 7, 29);
            assert!(s.get_raw_f29() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f29() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S7_2::new(&mut c[..]); m.set_f29(v); }
            assert!(updated::<true>(&b[12..17], &c[12..17], 7, 29, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 17), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_2::new(&mut c[..]); m.set_raw_f29(r); }
            assert!(updated::<true>(&b[12..17], &c[12..17], 7, 29, r as u64) && others(&b, &c, 12, 17), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[16..21], 7, 30);
            assert!(s.get_raw_f30() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f30() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S7_2::new(&mut c[..]); m.set_f30(v); }
            assert!(updated::<true>(&b[16..21], &c[16..21], 7, 30, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 21), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_2::new(&mut c[..]); m.set_raw_f30(r); }
            assert!(updated::<true>(&b[16..21], &c[16..21], 7, 30, r as u64) && others(&b, &c, 16, 21), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[20..25], 7, 31);
            assert!(s.get_raw_f31() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f31() as u64 == raw, "the value is the bits of the field");
            let v: u32 = kani::any();
            let bits = v as u64;
            { let mut m = S7_2::new(&mut c[..]); m.set_f31(v); }
            assert!(updated::<true>(&b[20..25], &c[20..25], 7, 31, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 25), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_2::new(&mut c[..]); m.set_raw_f31(r); }
            assert!(updated::<true>(&b[20..25], &c[20..25], 7, 31, r as u64) && others(&b, &c, 20, 25), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[24..30], 7, 34);
            assert!(s.get_raw_f34() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f34() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S7_2::new(&mut c[..]); m.set_f34(v); }
            assert!(updated::<true>(&b[24..30], &c[24..30], 7, 34, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 24, 30), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_2::new(&mut c[..]); m.set_raw_f34(r); }
            assert!(updated::<true>(&b[24..30], &c[24..30], 7, 34, r as u64) && others(&b, &c, 24, 30), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[29..35], 7, 35);
            assert!(s.get_raw_f35() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f35() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S7_2::new(&mut c[..]); m.set_f35(v); }
            assert!(updated::<true>(&b[29..35], &c[29..35], 7, 35, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 29, 35), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_2::new(&mut c[..]); m.set_raw_f35(r); }
            assert!(updated::<true>(&b[29..35], &c[29..35], 7, 35, r as u64) && others(&b, &c, 29, 35), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o7_g3() {
        use crate::ubet::*;
        const N: usize = 45;
        assert!(<S7_3<()> as FixedSize>::SIZE == N && SIZE_S7_3 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S7_3::new(&b[..]);
        {
            let raw = field::<true>(&b[0..6], 7, 36);
            assert!(s.get_raw_f36() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f36() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S7_3::new(&mut c[..]); m.set_f36(v); }
            assert!(updated::<true>(&b[0..6], &c[0..6], 7, 36, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_3::new(&mut c[..]); m.set_raw_f36(r); }
            assert!(updated::<true>(&b[0..6], &c[0..6], 7, 36, r as u64) && others(&b, &c, 0, 6), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[5..11], 7, 37);
            assert!(s.get_raw_f37() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f37() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S7_3::new(&mut c[..]); m.set_f37(v); }
            assert!(updated::<true>(&b[5..11], &c[5..11], 7, 37, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 11), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_3::new(&mut c[..]); m.set_raw_f37(r); }
            assert!(updated::<true>(&b[5..11], &c[5..11], 7, 37, r as u64) && others(&b, &c, 5, 11), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[10..16], 7, 38);
            assert!(s.get_raw_f38() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f38() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S7_3::new(&mut c[..]); m.set_f38(v); }
            assert!(updated::<true>(&b[10..16], &c[10..16], 7, 38, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 16), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_3::new(&mut c[..]); m.set_raw_f38(r); }
            assert!(updated::<true>(&b[10..16], &c[10..16], 7, 38, r as u64) && others(&b, &c, 10, 16), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[15..21], 7, 39);
            assert!(s.get_raw_f39() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f39() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S7_3::new(&mut c[..]); m.set_f39(v); }
            assert!(updated::<true>(&b[15..21], &c[15..21], 7, 39, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 15, 21), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_3::new(&mut c[..]); m.set_raw_f39(r); }
            assert!(updated::<true>(&b[15..21], &c[15..21], 7, 39, r as u64) && others(&b, &c, 15, 21), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[20..26], 7, 41);
            assert!(s.get_raw_f41() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f41() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S7_3::new(&mut c[..]); m.set_f41(v); }
            assert!(updated::<true>(&b[20..26], &c[20..26], 7, 41, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 26), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_3::new(&mut c[..]); m.set_raw_f41(r); }
            assert!(updated::<true>(&b[20..26], &c[20..26], 7, 41, r as u64) && others(&b, &c, 20, 26), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[26..33], 7, 42);
            assert!(s.get_raw_f42() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f42() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S7_3::new(&mut c[..]); m.set_f42(v); }
            assert!(updated::<true>(&b[26..33], &c[26..33], 7, 42, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 26, 33), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_3::new(&mut c[..]); m.set_raw_f42(r); }
            assert!(updated::<true>(&b[26..33], &c[26..33], 7, 42, r as u64) && others(&b, &c, 26, 33), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[32..39], 7, 43);
            assert!(s.get_raw_f43() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f43() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S7_3::new(&mut c[..]); m.set_f43(v); }
            assert!(updated::<true>(&b[32..39], &c[32..39], 7, 43, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 32, 39), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_3::new(&mut c[..]); m.set_raw_f43(r); }
            assert!(updated::<true>(&b[32..39], &c[32..39], 7, 43, r as u64) && others(&b, &c, 32, 39), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[38..45], 7, 44);
            assert!(s.get_raw_f44() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f44() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S7_3::new(&mut c[..]); m.set_f44(v); }
            assert!(updated::<true>(&b[38..45], &c[38..45], 7, 44, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 38, 45), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_3::new(&mut c[..]); m.set_raw_f44(r); }
            assert!(updated::<true>(&b[38..45], &c[38..45], 7, 44, r as u64) && others(&b, &c, 38, 45), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o7_g4() {
        use crate::ubet::*;
        const N: usize = 53;
        assert!(<S7_4<()> as FixedSize>::SIZE == N && SIZE_S7_4 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S7_4::new(&b[..]);
        {
            let raw = field::<true>(&b[0..7], 7, 45);
            assert!(s.get_raw_f45() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f45() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S7_4::new(&mut c[..]); m.set_f45(v); }
            assert!(updated::<true>(&b[0..7], &c[0..7], 7, 45, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_4::new(&mut c[..]); m.set_raw_f45(r); }
            assert!(updated::<true>(&b[0..7], &c[0..7], 7, 45, r as u64) && others(&b, &c, 0, 7), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[6..13], 7, 46);
            assert!(s.get_raw_f46() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f46() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S7_4::new(&mut c[..]); m.set_f46(v); }
            assert!(updated::<true>(&b[6..13], &c[6..13], 7, 46, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_4::new(&mut c[..]); m.set_raw_f46(r); }
            assert!(updated::<true>(&b[6..13], &c[6..13], 7, 46, r as u64) && others(&b, &c, 6, 13), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[12..19], 7, 47);
            assert!(s.get_raw_f47() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f47() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S7_4::new(&mut c[..]); m.set_f47(v); }
            assert!(updated::<true>(&b[12..19], &c[12..19], 7, 47, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_4::new(&mut c[..]); m.set_raw_f47(r); }
            assert!(updated::<true>(&b[12..19], &c[12..19], 7, 47, r as u64) && others(&b, &c, 12, 19), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[18..25], 7, 48);
            assert!(s.get_raw_f48() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f48() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S7_4::new(&mut c[..]); m.set_f48(v); }
            assert!(updated::<true>(&b[18..25], &c[18..25], 7, 48, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 18, 25), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_4::new(&mut c[..]); m.set_raw_f48(r); }
            assert!(updated::<true>(&b[18..25], &c[18..25], 7, 48, r as u64) && others(&b, &c, 18, 25), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[24..31], 7, 49);
            assert!(s.get_raw_f49() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f49() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S7_4::new(&mut c[..]); m.set_f49(v); }
            assert!(updated::<true>(&b[24..31], &c[24..31], 7, 49, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 24, 31), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_4::new(&mut c[..]); m.set_raw_f49(r); }
            assert!(updated::<true>(&b[24..31], &c[24..31], 7, 49, r as u64) && others(&b, &c, 24, 31), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[31..39], 7, 50);
            assert!(s.get_raw_f50() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f50() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S7_4::new(&mut c[..]); m.set_f50(v); }
            assert!(updated::<true>(&b[31..39], &c[31..39], 7, 50, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 31, 39), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_4::new(&mut c[..]); m.set_raw_f50(r); }
            assert!(updated::<true>(&b[31..39], &c[31..39], 7, 50, r as u64) && others(&b, &c, 31, 39), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[38..46], 7, 51);
            assert!(s.get_raw_f51() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f51() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S7_4::new(&mut c[..]); m.set_f51(v); }
            assert!(updated::<true>(&b[38..46], &c[38..46], 7, 51, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 38, 46), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_4::new(&mut c[..]); m.set_raw_f51(r); }
            assert!(updated::<true>(&b[38..46], &c[38..46], 7, 51, r as u64) && others(&b, &c, 38, 46), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[45..53], 7, 52);
            assert!(s.get_raw_f52() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f52() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S7_4::new(&mut c[..]); m.set_f52(v); }
            assert!(updated::<true>(&b[45..53], &c[45..53], 7, 52, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 45, 53), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_4::new(&mut c[..]); m.set_raw_f52(r); }
            assert!(updated::<true>(&b[45..53], &c[45..53], 7, 52, r as u64) && others(&b, &c, 45, 53), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn o7_g5() {
        use crate::ubet::*;
        const N: usize = 62;
        assert!(<S7_5<()> as FixedSize>::SIZE == N && SIZE_S7_5 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S7_5::new(&b[..]);
        {
            let raw = field::<true>(&b[0..8], 7, 53);
            assert!(s.get_raw_f53() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f53() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S7_5::new(&mut c[..]); m.set_f53(v); }
            assert!(updated::<true>(&b[0..8], &c[0..8], 7, 53, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_5::new(&mut c[..]); m.set_raw_f53(r); }
            assert!(updated::<true>(&b[0..8], &c[0..8], 7, 53, r as u64) && others(&b, &c, 0, 8), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[7..15], 7, 54);
            assert!(s.get_raw_f54() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f54() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S7_5::new(&mut c[..]); m.set_f54(v); }
            assert!(updated::<true>(&b[7..15], &c[7..15], 7, 54, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 15), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_5::new(&mut c[..]); m.set_raw_f54(r); }
            assert!(updated::<true>(&b[7..15], &c[7..15], 7, 54, r as u64) && others(&b, &c, 7, 15), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[14..22], 7, 55);
            assert!(s.get_raw_f55() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f55() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S7_5::new(&mut c[..]); m.set_f55(v); }
            assert!(updated::<true>(&b[14..22], &c[14..22], 7, 55, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 14, 22), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_5::new(&mut c[..]); m.set_raw_f55(r); }
            assert!(updated::<true>(&b[14..22], &c[14..22], 7, 55, r as u64) && others(&b, &c, 14, 22), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[21..30], 7, 58);
            assert!(s.get_raw_f58() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f58() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S7_5::new(&mut c[..]); m.set_f58(v); }
            assert!(updated::<true>(&b[21..30], &c[21..30], 7, 58, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 21, 30), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_5::new(&mut c[..]); m.set_raw_f58(r); }
            assert!(updated::<true>(&b[21..30], &c[21..30], 7, 58, r as u64) && others(&b, &c, 21, 30), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[29..38], 7, 59);
            assert!(s.get_raw_f59() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f59() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S7_5::new(&mut c[..]); m.set_f59(v); }
            assert!(updated::<true>(&b[29..38], &c[29..38], 7, 59, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 29, 38), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_5::new(&mut c[..]); m.set_raw_f59(r); }
            assert!(updated::<true>(&b[29..38], &c[29..38], 7, 59, r as u64) && others(&b, &c, 29, 38), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[37..46], 7, 60);
            assert!(s.get_raw_f60() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f60() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S7_5::new(&mut c[..]); m.set_f60(v); }
            assert!(updated::<true>(&b[37..46], &c[37..46], 7, 60, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 37, 46), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_5::new(&mut c[..]); m.set_raw_f60(r); }
            assert!(updated::<true>(&b[37..46], &c[37..46], 7, 60, r as u64) && others(&b, &c, 37, 46), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[45..54], 7, 61);
            assert!(s.get_raw_f61() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f61() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S7_5::new(&mut c[..]); m.set_f61(v); }
            assert!(updated::<true>(&b[45..54], &c[45..54], 7, 61, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 45, 54), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_5::new(&mut c[..]); m.set_raw_f61(r); }
            assert!(updated::<true>(&b[45..54], &c[45..54], 7, 61, r as u64) && others(&b, &c, 45, 54), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[53..62], 7, 62);
            assert!(s.get_raw_f62() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f62() as u64 == raw, "the value is the bits of the field");
            let v: u64 = kani::any();
            let bits = v as u64;
            { let mut m = S7_5::new(&mut c[..]); m.set_f62(v); }
            assert!(updated::<true>(&b[53..62], &c[53..62], 7, 62, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 53, 62), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_5::new(&mut c[..]); m.set_raw_f62(r); }
            assert!(updated::<true>(&b[53..62], &c[53..62], 7, 62, r as u64) && others(&b, &c, 53, 62), "the raw setter replaces the bits of the field only");
        }
    }
}
#[cfg(feature = "ilet")]
mod ilet {
    use crate::spec::*;
    use bp3d_proto::util::FixedSize;
    #[kani::proof]
    fn o0_g0() {
        use crate::ilet::*;
        const N: usize = 12;
        assert!(<S0_0<()> as FixedSize>::SIZE == N && SIZE_S0_0 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S0_0::new(&b[..]);
        {
            let raw = field::<false>(&b[0..1], 0, 2);
            assert!(s.get_raw_f2() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 62) as i64) >> 62;
            assert!(s.get_f2() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_0::new(&mut c[..]); m.set_f2(v); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 0, 2, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_0::new(&mut c[..]); m.set_raw_f2(r); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 0, 2, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 1 && v as i64 <= (1u64 << 1) as i64 - 1 || 2 == 64 {
                let mut c = b;
                { let mut m = S0_0::new(&mut c[..]); m.set_f2(v); }
                assert!(S0_0::new(&c[..]).get_f2() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[1..2], 0, 4);
            assert!(s.get_raw_f4() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 60) as i64) >> 60;
            assert!(s.get_f4() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_0::new(&mut c[..]); m.set_f4(v); }
            assert!(updated::<false>(&b[1..2], &c[1..2], 0, 4, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_0::new(&mut c[..]); m.set_raw_f4(r); }
            assert!(updated::<false>(&b[1..2], &c[1..2], 0, 4, r as u64) && others(&b, &c, 1, 2), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 3 && v as i64 <= (1u64 << 3) as i64 - 1 || 4 == 64 {
                let mut c = b;
                { let mut m = S0_0::new(&mut c[..]); m.set_f4(v); }
                assert!(S0_0::new(&c[..]).get_f4() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[2..3], 0, 5);
            assert!(s.get_raw_f5() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 59) as i64) >> 59;
            assert!(s.get_f5() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_0::new(&mut c[..]); m.set_f5(v); }
            assert!(updated::<false>(&b[2..3], &c[2..3], 0, 5, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_0::new(&mut c[..]); m.set_raw_f5(r); }
            assert!(updated::<false>(&b[2..3], &c[2..3], 0, 5, r as u64) && others(&b, &c, 2, 3), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 4 && v as i64 <= (1u64 << 4) as i64 - 1 || 5 == 64 {
                let mut c = b;
                { let mut m = S0_0::new(&mut c[..]); m.set_f5(v); }
                assert!(S0_0::new(&c[..]).get_f5() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[3..4], 0, 6);
            assert!(s.get_raw_f6() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 58) as i64) >> 58;
            assert!(s.get_f6() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_0::new(&mut c[..]); m.set_f6(v); }
            assert!(updated::<false>(&b[3..4], &c[3..4], 0, 6, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_0::new(&mut c[..]); m.set_raw_f6(r); }
            assert!(updated::<false>(&b[3..4], &c[3..4], 0, 6, r as u64) && others(&b, &c, 3, 4), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 5 && v as i64 <= (1u64 << 5) as i64 - 1 || 6 == 64 {
                let mut c = b;
                { let mut m = S0_0::new(&mut c[..]); m.set_f6(v); }
                assert!(S0_0::new(&c[..]).get_f6() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[4..6], 0, 10);
            assert!(s.get_raw_f10() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 54) as i64) >> 54;
            assert!(s.get_f10() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_0::new(&mut c[..]); m.set_f10(v); }
            assert!(updated::<false>(&b[4..6], &c[4..6], 0, 10, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_0::new(&mut c[..]); m.set_raw_f10(r); }
            assert!(updated::<false>(&b[4..6], &c[4..6], 0, 10, r as u64) && others(&b, &c, 4, 6), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 9 && v as i64 <= (1u64 << 9) as i64 - 1 || 10 == 64 {
                let mut c = b;
                { let mut m = S0_0::new(&mut c[..]); m.set_f10(v); }
                assert!(S0_0::new(&c[..]).get_f10() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[6..8], 0, 11);
            assert!(s.get_raw_f11() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 53) as i64) >> 53;
            assert!(s.get_f11() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_0::new(&mut c[..]); m.set_f11(v); }
            assert!(updated::<false>(&b[6..8], &c[6..8], 0, 11, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_0::new(&mut c[..]); m.set_raw_f11(r); }
            assert!(updated::<false>(&b[6..8], &c[6..8], 0, 11, r as u64) && others(&b, &c, 6, 8), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 10 && v as i64 <= (1u64 << 10) as i64 - 1 || 11 == 64 {
                let mut c = b;
                { let mut m = S0_0::new(&mut c[..]); m.set_f11(v); }
                assert!(S0_0::new(&c[..]).get_f11() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[8..10], 0, 12);
            assert!(s.get_raw_f12() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 52) as i64) >> 52;
            assert!(s.get_f12() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_0::new(&mut c[..]); m.set_f12(v); }
            assert!(updated::<false>(&b[8..10], &c[8..10], 0, 12, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 8, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_0::new(&mut c[..]); m.set_raw_f12(r); }
            assert!(updated::<false>(&b[8..10], &c[8..10], 0, 12, r as u64) && others(&b, &c, 8, 10), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 11 && v as i64 <= (1u64 << 11) as i64 - 1 || 12 == 64 {
                let mut c = b;
                { let mut m = S0_0::new(&mut c[..]); m.set_f12(v); }
                assert!(S0_0::new(&c[..]).get_f12() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[10..12], 0, 13);
            assert!(s.get_raw_f13() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 51) as i64) >> 51;
            assert!(s.get_f13() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_0::new(&mut c[..]); m.set_f13(v); }
            assert!(updated::<false>(&b[10..12], &c[10..12], 0, 13, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 12), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_0::new(&mut c[..]); m.set_raw_f13(r); }
            assert!(updated::<false>(&b[10..12], &c[10..12], 0, 13, r as u64) && others(&b, &c, 10, 12), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 12 && v as i64 <= (1u64 << 12) as i64 - 1 || 13 == 64 {
                let mut c = b;
                { let mut m = S0_0::new(&mut c[..]); m.set_f13(v); }
                assert!(S0_0::new(&c[..]).get_f13() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o0_g1() {
        use crate::ilet::*;
        const N: usize = 22;
        assert!(<S0_1<()> as FixedSize>::SIZE == N && SIZE_S0_1 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S0_1::new(&b[..]);
        {
            let raw = field::<false>(&b[0..2], 0, 14);
            assert!(s.get_raw_f14() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 50) as i64) >> 50;
            assert!(s.get_f14() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_1::new(&mut c[..]); m.set_f14(v); }
            assert!(updated::<false>(&b[0..2], &c[0..2], 0, 14, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_1::new(&mut c[..]); m.set_raw_f14(r); }
            assert!(updated::<false>(&b[0..2], &c[0..2], 0, 14, r as u64) && others(&b, &c, 0, 2), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 13 && v as i64 <= (1u64 << 13) as i64 - 1 || 14 == 64 {
                let mut c = b;
                { let mut m = S0_1::new(&mut c[..]); m.set_f14(v); }
                assert!(S0_1::new(&c[..]).get_f14() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[2..4], 0, 15);
            assert!(s.get_raw_f15() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 49) as i64) >> 49;
            assert!(s.get_f15() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_1::new(&mut c[..]); m.set_f15(v); }
            assert!(updated::<false>(&b[2..4], &c[2..4], 0, 15, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_1::new(&mut c[..]); m.set_raw_f15(r); }
            assert!(updated::<false>(&b[2..4], &c[2..4], 0, 15, r as u64) && others(&b, &c, 2, 4), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 14 && v as i64 <= (1u64 << 14) as i64 - 1 || 15 == 64 {
                let mut c = b;
                { let mut m = S0_1::new(&mut c[..]); m.set_f15(v); }
                assert!(S0_1::new(&c[..]).get_f15() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[4..7], 0, 18);
            assert!(s.get_raw_f18() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 46) as i64) >> 46;
            assert!(s.get_f18() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_1::new(&mut c[..]); m.set_f18(v); }
            assert!(updated::<false>(&b[4..7], &c[4..7], 0, 18, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_1::new(&mut c[..]); m.set_raw_f18(r); }
            assert!(updated::<false>(&b[4..7], &c[4..7], 0, 18, r as u64) && others(&b, &c, 4, 7), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 17 && v as i64 <= (1u64 << 17) as i64 - 1 || 18 == 64 {
                let mut c = b;
                { let mut m = S0_1::new(&mut c[..]); m.set_f18(v); }
                assert!(S0_1::new(&c[..]).get_f18() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[7..10], 0, 19);
            assert!(s.get_raw_f19() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 45) as i64) >> 45;
            assert!(s.get_f19() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_1::new(&mut c[..]); m.set_f19(v); }
            assert!(updated::<false>(&b[7..10], &c[7..10], 0, 19, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_1::new(&mut c[..]); m.set_raw_f19(r); }
            assert!(updated::<false>(&b[7..10], &c[7..10], 0, 19, r as u64) && others(&b, &c, 7, 10), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 18 && v as i64 <= (1u64 << 18) as i64 - 1 || 19 == 64 {
                let mut c = b;
                { let mut m = S0_1::new(&mut c[..]); m.set_f19(v); }
                assert!(S0_1::new(&c[..]).get_f19() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[10..13], 0, 20);
            assert!(s.get_raw_f20() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 44) as i64) >> 44;
            assert!(s.get_f20() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_1::new(&mut c[..]); m.set_f20(v); }
            assert!(updated::<false>(&b[10..13], &c[10..13], 0, 20, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_1::new(&mut c[..]); m.set_raw_f20(r); }
            assert!(updated::<false>(&b[10..13], &c[10..13], 0, 20, r as u64) && others(&b, &c, 10, 13), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 19 && v as i64 <= (1u64 << 19) as i64 - 1 || 20 == 64 {
                let mut c = b;
                { let mut m = S0_1::new(&mut c[..]); m.set_f20(v); }
                assert!(S0_1::new(&c[..]).get_f20() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[13..16], 0, 21);
            assert!(s.get_raw_f21() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 43) as i64) >> 43;
            assert!(s.get_f21() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_1::new(&mut c[..]); m.set_f21(v); }
            assert!(updated::<false>(&b[13..16], &c[13..16], 0, 21, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 13, 16), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_1::new(&mut c[..]); m.set_raw_f21(r); }
            assert!(updated::<false>(&b[13..16], &c[13..16], 0, 21, r as u64) && others(&b, &c, 13, 16), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 20 && v as i64 <= (1u64 << 20) as i64 - 1 || 21 == 64 {
                let mut c = b;
                { let mut m = S0_1::new(&mut c[..]); m.set_f21(v); }
                assert!(S0_1::new(&c[..]).get_f21() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[16..19], 0, 22);
            assert!(s.get_raw_f22() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 42) as i64) >> 42;
            assert!(s.get_f22() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_1::new(&mut c[..]); m.set_f22(v); }
            assert!(updated::<false>(&b[16..19], &c[16..19], 0, 22, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_1::new(&mut c[..]); m.set_raw_f22(r); }
            assert!(updated::<false>(&b[16..19], &c[16..19], 0, 22, r as u64) && others(&b, &c, 16, 19), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 21 && v as i64 <= (1u64 << 21) as i64 - 1 || 22 == 64 {
                let mut c = b;
                { let mut m = S0_1::new(&mut c[..]); m.set_f22(v); }
                assert!(S0_1::new(&c[..]).get_f22() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[19..22], 0, 23);
            assert!(s.get_raw_f23() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 41) as i64) >> 41;
            assert!(s.get_f23() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_1::new(&mut c[..]); m.set_f23(v); }
            assert!(updated::<false>(&b[19..22], &c[19..22], 0, 23, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 19, 22), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_1::new(&mut c[..]); m.set_raw_f23(r); }
            assert!(updated::<false>(&b[19..22], &c[19..22], 0, 23, r as u64) && others(&b, &c, 19, 22), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 22 && v as i64 <= (1u64 << 22) as i64 - 1 || 23 == 64 {
                let mut c = b;
                { let mut m = S0_1::new(&mut c[..]); m.set_f23(v); }
                assert!(S0_1::new(&c[..]).get_f23() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o0_g2() {
        use crate::ilet::*;
        const N: usize = 34;
        assert!(<S0_2<()> as FixedSize>::SIZE == N && SIZE_S0_2 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S0_2::new(&b[..]);
        {
            let raw = field::<false>(&b[0..4], 0, 26);
            assert!(s.get_raw_f26() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 38) as i64) >> 38;
            assert!(s.get_f26() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_2::new(&mut c[..]); m.set_f26(v); }
            assert!(updated::<false>(&b[0..4], &c[0..4], 0, 26, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_2::new(&mut c[..]); m.set_raw_f26(r); }
            assert!(updated::<false>(&b[0..4], &c[0..4], 0, 26, r as u64) && others(&b, &c, 0, 4), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 25 && v as i64 <= (1u64 << 25) as i64 - 1 || 26 == 64 {
                let mut c = b;
                { let mut m = S0_2::new(&mut c[..]); m.set_f26(v); }
                assert!(S0_2::new(&c[..]).get_f26() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[4..8], 0, 27);
            assert!(s.get_raw_f27() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 37) as i64) >> 37;
            assert!(s.get_f27() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_2::new(&mut c[..]); m.set_f27(v); }
            assert!(updated::<false>(&b[4..8], &c[4..8], 0, 27, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_2::new(&mut c[..]); m.set_raw_f27(r); }
            assert!(updated::<false>(&b[4..8], &c[4..8], 0, 27, r as u64) && others(&b, &c, 4, 8), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 26 && v as i64 <= (1u64 << 26) as i64 - 1 || 27 == 64 {
                let mut c = b;
                { let mut m = S0_2::new(&mut c[..]); m.set_f27(v); }
                assert!(S0_2::new(&c[..]).get_f27() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[8..12], 0, 28);
            assert!(s.get_raw_f28() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 36) as i64) >> 36;
            assert!(s.get_f28() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_2::new(&mut c[..]); m.set_f28(v); }
            assert!(updated::<false>(&b[8..12], &c[8..12], 0, 28, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 8, 12), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_2::new(&mut c[..]); m.set_raw_f28(r); }
            assert!(updated::<false>(&b[8..12], &c[8..12], 0, 28, r as u64) && others(&b, &c, 8, 12), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 27 && v as i64 <= (1u64 << 27) as i64 - 1 || 28 == 64 {
                let mut c = b;
                { let mut m = S0_2::new(&mut c[..]); m.set_f28(v); }
                assert!(S0_2::new(&c[..]).get_f28() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[12..16], 0, 29);
            assert!(s.get_raw_f29() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 35) as i64) >> 35;
            assert!(s.get_f29() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_2::new(&mut c[..]); m.set_f29(v); }
            assert!(updated::<false>(&b[12..16], &c[12..16], 0, 29, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 16), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_2::new(&mut c[..]); m.set_raw_f29(r); }
            assert!(updated::<false>(&b[12..16], &c[12..16], 0, 29, r as u64) && others(&b, &c, 12, 16), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 28 && v as i64 <= (1u64 << 28) as i64 - 1 || 29 == 64 {
                let mut c = b;
                { let mut m = S0_2::new(&mut c[..]); m.set_f29(v); }
                assert!(S0_2::new(&c[..]).get_f29() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[16..20], 0, 30);
            assert!(s.get_raw_f30() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 34) as i64) >> 34;
            assert!(s.get_f30() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_2::new(&mut c[..]); m.set_f30(v); }
            assert!(updated::<false>(&b[16..20], &c[16..20], 0, 30, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_2::new(&mut c[..]); m.set_raw_f30(r); }
            assert!(updated::<false>(&b[16..20], &c[16..20], 0, 30, r as u64) && others(&b, &c, 16, 20), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 29 && v as i64 <= (1u64 << 29) as i64 - 1 || 30 == 64 {
                let mut c = b;
                { let mut m = S0_2::new(&mut c[..]); m.set_f30(v); }
                assert!(S0_2::new(&c[..]).get_f30() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[20..24], 0, 31);
            assert!(s.get_raw_f31() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 33) as i64) >> 33;
            assert!(s.get_f31() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_2::new(&mut c[..]); m.set_f31(v); }
            assert!(updated::<false>(&b[20..24], &c[20..24], 0, 31, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 24), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_2::new(&mut c[..]); m.set_raw_f31(r); }
            assert!(updated::<false>(&b[20..24], &c[20..24], 0, 31, r as u64) && others(&b, &c, 20, 24), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 30 && v as i64 <= (1u64 << 30) as i64 - 1 || 31 == 64 {
                let mut c = b;
                { let mut m = S0_2::new(&mut c[..]); m.set_f31(v); }
                assert!(S0_2::new(&c[..]).get_f31() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[24..29], 0, 34);
            assert!(s.get_raw_f34() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 30) as i64) >> 30;
            assert!(s.get_f34() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_2::new(&mut c[..]); m.set_f34(v); }
            assert!(updated::<false>(&b[24..29], &c[24..29], 0, 34, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 24, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_2::new(&mut c[..]); m.set_raw_f34(r); }
            assert!(updated::<false>(&b[24..29], &c[24..29], 0, 34, r as u64) && others(&b, &c, 24, 29), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 33 && v as i64 <= (1u64 << 33) as i64 - 1 || 34 == 64 {
                let mut c = b;
                { let mut m = S0_2::new(&mut c[..]); m.set_f34(v); }
                assert!(S0_2::new(&c[..]).get_f34() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[29..34], 0, 35);
            assert!(s.get_raw_f35() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 29) as i64) >> 29;
            assert!(s.get_f35() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_2::new(&mut c[..]); m.set_f35(v); }
            assert!(updated::<false>(&b[29..34], &c[29..34], 0, 35, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 29, 34), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_2::new(&mut c[..]); m.set_raw_f35(r); }
            assert!(updated::<false>(&b[29..34], &c[29..34], 0, 35, r as u64) && others(&b, &c, 29, 34), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 34 && v as i64 <= (1u64 << 34) as i64 - 1 || 35 == 64 {
                let mut c = b;
                { let mut m = S0_2::new(&mut c[..]); m.set_f35(v); }
                assert!(S0_2::new(&c[..]).get_f35() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o0_g3() {
        use crate::ilet::*;
        const N: usize = 44;
        assert!(<S0_3<()> as FixedSize>::SIZE == N && SIZE_S0_3 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S0_3::new(&b[..]);
        {
            let raw = field::<false>(&b[0..5], 0, 36);
            assert!(s.get_raw_f36() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 28) as i64) >> 28;
            assert!(s.get_f36() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_3::new(&mut c[..]); m.set_f36(v); }
            assert!(updated::<false>(&b[0..5], &c[0..5], 0, 36, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_3::new(&mut c[..]); m.set_raw_f36(r); }
            assert!(updated::<false>(&b[0..5], &c[0..5], 0, 36, r as u64) && others(&b, &c, 0, 5), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 35 && v as i64 <= (1u64 << 35) as i64 - 1 || 36 == 64 {
                let mut c = b;
                { let mut m = S0_3::new(&mut c[..]); m.set_f36(v); }
                assert!(S0_3::new(&c[..]).get_f36() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[5..10], 0, 37);
            assert!(s.get_raw_f37() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 27) as i64) >> 27;
            assert!(s.get_f37() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_3::new(&mut c[..]); m.set_f37(v); }
            assert!(updated::<false>(&b[5..10], &c[5..10], 0, 37, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_3::new(&mut c[..]); m.set_raw_f37(r); }
            assert!(updated::<false>(&b[5..10], &c[5..10], 0, 37, r as u64) && others(&b, &c, 5, 10), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 36 && v as i64 <= (1u64 << 36) as i64 - 1 || 37 == 64 {
                let mut c = b;
                { let mut m = S0_3::new(&mut c[..]); m.set_f37(v); }
                assert!(S0_3::new(&c[..]).get_f37() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[10..15], 0, 38);
            assert!(s.get_raw_f38() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 26) as i64) >> 26;
            assert!(s.get_f38() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_3::new(&mut c[..]); m.set_f38(v); }
            assert!(updated::<false>(&b[10..15], &c[10..15], 0, 38, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 15), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_3::new(&mut c[..]); m.set_raw_f38(r); }
            assert!(updated::<false>(&b[10..15], &c[10..15], 0, 38, r as u64) && others(&b, &c, 10, 15), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 37 && v as i64 <= (1u64 << 37) as i64 - 1 || 38 == 64 {
                let mut c = b;
                { let mut m = S0_3::new(&mut c[..]); m.set_f38(v); }
                assert!(S0_3::new(&c[..]).get_f38() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[15..20], 0, 39);
            assert!(s.get_raw_f39() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 25) as i64) >> 25;
            assert!(s.get_f39() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_3::new(&mut c[..]); m.set_f39(v); }
            assert!(updated::<false>(&b[15..20], &c[15..20], 0, 39, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 15, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_3::new(&mut c[..]); m.set_raw_f39(r); }
            assert!(updated::<false>(&b[15..20], &c[15..20], 0, 39, r as u64) && others(&b, &c, 15, 20), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 38 && v as i64 <= (1u64 << 38) as i64 - 1 || 39 == 64 {
                let mut c = b;
                { let mut m = S0_3::new(&mut c[..]); m.set_f39(v); }
                assert!(S0_3::new(&c[..]).get_f39() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[20..26], 0, 41);
            assert!(s.get_raw_f41() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 23) as i64) >> 23;
            assert!(s.get_f41() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_3::new(&mut c[..]); m.set_f41(v); }
            assert!(updated::<false>(&b[20..26], &c[20..26], 0, 41, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 26), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_3::new(&mut c[..]); m.set_raw_f41(r); }
            assert!(updated::<false>(&b[20..26], &c[20..26], 0, 41, r as u64) && others(&b, &c, 20, 26), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 40 && v as i64 <= (1u64 << 40) as i64 - 1 || 41 == 64 {
                let mut c = b;
                { let mut m = S0_3::new(&mut c[..]); m.set_f41(v); }
                assert!(S0_3::new(&c[..]).get_f41() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[26..32], 0, 42);
            assert!(s.get_raw_f42() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 22) as i64) >> 22;
            assert!(s.get_f42() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_3::new(&mut c[..]); m.set_f42(v); }
            assert!(updated::<false>(&b[26..32], &c[26..32], 0, 42, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 26, 32), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_3::new(&mut c[..]); m.set_raw_f42(r); }
            assert!(updated::<false>(&b[26..32], &c[26..32], 0, 42, r as u64) && others(&b, &c, 26, 32), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 41 && v as i64 <= (1u64 << 41) as i64 - 1 || 42 == 64 {
                let mut c = b;
                { let mut m = S0_3::new(&mut c[..]); m.set_f42(v); }
                assert!(S0_3::new(&c[..]).get_f42() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[32..38], 0, 43);
            assert!(s.get_raw_f43() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 21) as i64) >> 21;
            assert!(s.get_f43() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_3::new(&mut c[..]); m.set_f43(v); }
            assert!(updated::<false>(&b[32..38], &c[32..38], 0, 43, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 32, 38), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_3::new(&mut c[..]); m.set_raw_f43(r); }
            assert!(updated::<false>(&b[32..38], &c[32..38], 0, 43, r as u64) && others(&b, &c, 32, 38), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 42 && v as i64 <= (1u64 << 42) as i64 - 1 || 43 == 64 {
                let mut c = b;
                { let mut m = S0_3::new(&mut c[..]); m.set_f43(v); }
                assert!(S0_3::new(&c[..]).get_f43() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[38..44], 0, 44);
            assert!(s.get_raw_f44() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 20) as i64) >> 20;
            assert!(s.get_f44() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_3::new(&mut c[..]); m.set_f44(v); }
            assert!(updated::<false>(&b[38..44], &c[38..44], 0, 44, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 38, 44), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_3::new(&mut c[..]); m.set_raw_f44(r); }
            assert!(updated::<false>(&b[38..44], &c[38..44], 0, 44, r as u64) && others(&b, &c, 38, 44), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 43 && v as i64 <= (1u64 << 43) as i64 - 1 || 44 == 64 {
                let mut c = b;
                { let mut m = S0_3::new(&mut c[..]); m.set_f44(v); }
                assert!(S0_3::new(&c[..]).get_f44() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o0_g4() {
        use crate::ilet::*;
        const N: usize = 52;
        assert!(<S0_4<()> as FixedSize>::SIZE == N && SIZE_S0_4 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S0_4::new(&b[..]);
        {
            let raw = field::<false>(&b[0..6], 0, 45);
            assert!(s.get_raw_f45() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 19) as i64) >> 19;
            assert!(s.get_f45() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_4::new(&mut c[..]); m.set_f45(v); }
            assert!(updated::<false>(&b[0..6], &c[0..6], 0, 45, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_4::new(&mut c[..]); m.set_raw_f45(r); }
            assert!(updated::<false>(&b[0..6], &c[0..6], 0, 45, r as u64) && others(&b, &c, 0, 6), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 44 && v as i64 <= (1u64 << 44) as i64 - 1 || 45 == 64 {
                let mut c = b;
                { let mut m = S0_4::new(&mut c[..]); m.set_f45(v); }
                assert!(S0_4::new(&c[..]).get_f45() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[6..12], 0, 46);
            assert!(s.get_raw_f46() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 18) as i64) >> 18;
            assert!(s.get_f46() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_4::new(&mut c[..]); m.set_f46(v); }
            assert!(updated::<false>(&b[6..12], &c[6..12], 0, 46, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 12), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_4::new(&mut c[..]); m.set_raw_f46(r); }
            assert!(updated::<false>(&b[6..12], &c[6..12], 0, 46, r as u64) && others(&b, &c, 6, 12), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 45 && v as i64 <= (1u64 << 45) as i64 - 1 || 46 == 64 {
                let mut c = b;
                { let mut m = S0_4::new(&mut c[..]); m.set_f46(v); }
                assert!(S0_4::new(&c[..]).get_f46() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[12..18], 0, 47);
            assert!(s.get_raw_f47() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 17) as i64) >> 17;
            assert!(s.get_f47() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_4::new(&mut c[..]); m.set_f47(v); }
            assert!(updated::<false>(&b[12..18], &c[12..18], 0, 47, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 18), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_4::new(&mut c[..]); m.set_raw_f47(r); }
            assert!(updated::<false>(&b[12..18], &c[12..18], 0, 47, r as u64) && others(&b, &c, 12, 18), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 46 && v as i64 <= (1u64 << 46) as i64 - 1 || 47 == 64 {
                let mut c = b;
                { let mut m = S0_4::new(&mut c[..]); m.set_f47(v); }
                assert!(S0_4::new(&c[..]).get_f47() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[18..24], 0, 48);
            assert!(s.get_raw_f48() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 16) as i64) >> 16;
            assert!(s.get_f48() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_4::new(&mut c[..]); m.set_f48(v); }
            assert!(updated::<false>(&b[18..24], &c[18..24], 0, 48, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 18, 24), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_4::new(&mut c[..]); m.set_raw_f48(r); }
            assert!(updated::<false>(&b[18..24], &c[18..24], 0, 48, r as u64) && others(&b, &c, 18, 24), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 47 && v as i64 <= (1u64 << 47) as i64 - 1 || 48 == 64 {
                let mut c = b;
                { let mut m = S0_4::new(&mut c[..]); m.set_f48(v); }
                assert!(S0_4::new(&c[..]).get_f48() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[24..31], 0, 49);
            assert!(s.get_raw_f49() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 15) as i64) >> 15;
            assert!(s.get_f49() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_4::new(&mut c[..]); m.set_f49(v); }
            assert!(updated::<false>(&b[24..31], &c[24..31], 0, 49, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 24, 31), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_4::new(&mut c[..]); m.set_raw_f49(r); }
            assert!(updated::<false>(&b[24..31], &c[24..31], 0, 49, r as u64) && others(&b, &c, 24, 31), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 48 && v as i64 <= (1u64 << 48) as i64 - 1 || 49 == 64 {
                let mut c = b;
                { let mut m = S0_4::new(&mut c[..]); m.set_f49(v); }
                assert!(S0_4::new(&c[..]).get_f49() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[31..38], 0, 50);
            assert!(s.get_raw_f50() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 14) as i64) >> 14;
            assert!(s.get_f50() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_4::new(&mut c[..]); m.set_f50(v); }
            assert!(updated::<false>(&b[31..38], &c[31..38], 0, 50, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 31, 38), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_4::new(&mut c[..]); m.set_raw_f50(r); }
            assert!(updated::<false>(&b[31..38], &c[31..38], 0, 50, r as u64) && others(&b, &c, 31, 38), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 49 && v as i64 <= (1u64 << 49) as i64 - 1 || 50 == 64 {
                let mut c = b;
                { let mut m = S0_4::new(&mut c[..]); m.set_f50(v); }
                assert!(S0_4::new(&c[..]).get_f50() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[38..45], 0, 51);
            assert!(s.get_raw_f51() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 13) as i64) >> 13;
            assert!(s.get_f51() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_4::new(&mut c[..]); m.set_f51(v); }
            assert!(updated::<false>(&b[38..45], &c[38..45], 0, 51, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 38, 45), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_4::new(&mut c[..]); m.set_raw_f51(r); }
            assert!(updated::<false>(&b[38..45], &c[38..45], 0, 51, r as u64) && others(&b, &c, 38, 45), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 50 && v as i64 <= (1u64 << 50) as i64 - 1 || 51 == 64 {
                let mut c = b;
                { let mut m = S0_4::new(&mut c[..]); m.set_f51(v); }
                assert!(S0_4::new(&c[..]).get_f51() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[45..52], 0, 52);
            assert!(s.get_raw_f52() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 12) as i64) >> 12;
            assert!(s.get_f52() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_4::new(&mut c[..]); m.set_f52(v); }
            assert!(updated::<false>(&b[45..52], &c[45..52], 0, 52, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 45, 52), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_4::new(&mut c[..]); m.set_raw_f52(r); }
            assert!(updated::<false>(&b[45..52], &c[45..52], 0, 52, r as u64) && others(&b, &c, 45, 52), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 51 && v as i64 <= (1u64 << 51) as i64 - 1 || 52 == 64 {
                let mut c = b;
                { let mut m = S0_4::new(&mut c[..]); m.set_f52(v); }
                assert!(S0_4::new(&c[..]).get_f52() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o0_g5() {
        use crate::ilet::*;
        const N: usize = 61;
        assert!(<S0_5<()> as FixedSize>::SIZE == N && SIZE_S0_5 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S0_5::new(&b[..]);
        {
            let raw = field::<false>(&b[0..7], 0, 53);
            assert!(s.get_raw_f53() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 11) as i64) >> 11;
            assert!(s.get_f53() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_5::new(&mut c[..]); m.set_f53(v); }
            assert!(updated::<false>(&b[0..7], &c[0..7], 0, 53, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_5::new(&mut c[..]); m.set_raw_f53(r); }
            assert!(updated::<false>(&b[0..7], &c[0..7], 0, 53, r as u64) && others(&b, &c, 0, 7), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 52 && v as i64 <= (1u64 << 52) as i64 - 1 || 53 == 64 {
                let mut c = b;
                { let mut m = S0_5::new(&mut c[..]); m.set_f53(v); }
                assert!(S0_5::new(&c[..]).get_f53() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[7..14], 0, 54);
            assert!(s.get_raw_f54() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 10) as i64) >> 10;
            assert!(s.get_f54() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_5::new(&mut c[..]); m.set_f54(v); }
            assert!(updated::<false>(&b[7..14], &c[7..14], 0, 54, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 14), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_5::new(&mut c[..]); m.set_raw_f54(r); }
            assert!(updated::<false>(&b[7..14], &c[7..14], 0, 54, r as u64) && others(&b, &c, 7, 14), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 53 && v as i64 <= (1u64 << 53) as i64 - 1 || 54 == 64 {
                let mut c = b;
                { let mut m = S0_5::new(&mut c[..]); m.set_f54(v); }
                assert!(S0_5::new(&c[..]).get_f54() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[14..21], 0, 55);
            assert!(s.get_raw_f55() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 9) as i64) >> 9;
            assert!(s.get_f55() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_5::new(&mut c[..]); m.set_f55(v); }
            assert!(updated::<false>(&b[14..21], &c[14..21], 0, 55, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 14, 21), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_5::new(&mut c[..]); m.set_raw_f55(r); }
            assert!(updated::<false>(&b[14..21], &c[14..21], 0, 55, r as u64) && others(&b, &c, 14, 21), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 54 && v as i64 <= (1u64 << 54) as i64 - 1 || 55 == 64 {
                let mut c = b;
                { let mut m = S0_5::new(&mut c[..]); m.set_f55(v); }
                assert!(S0_5::new(&c[..]).get_f55() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[21..29], 0, 58);
            assert!(s.get_raw_f58() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 6) as i64) >> 6;
            assert!(s.get_f58() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_5::new(&mut c[..]); m.set_f58(v); }
            assert!(updated::<false>(&b[21..29], &c[21..29], 0, 58, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 21, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_5::new(&mut c[..]); m.set_raw_f58(r); }
            assert!(updated::<false>(&b[21..29], &c[21..29], 0, 58, r as u64) && others(&b, &c, 21, 29), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 57 && v as i64 <= (1u64 << 57) as i64 - 1 || 58 == 64 {
                let mut c = b;
                { let mut m = S0_5::new(&mut c[..]); m.set_f58(v); }
                assert!(S0_5::new(&c[..]).get_f58() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[29..37], 0, 59);
            assert!(s.get_raw_f59() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 5) as i64) >> 5;
            assert!(s.get_f59() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_5::new(&mut c[..]); m.set_f59(v); }
            assert!(updated::<false>(&b[29..37], &c[29..37], 0, 59, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 29, 37), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_5::new(&mut c[..]); m.set_raw_f59(r); }
            assert!(updated::<false>(&b[29..37], &c[29..37], 0, 59, r as u64) && others(&b, &c, 29, 37), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 58 && v as i64 <= (1u64 << 58) as i64 - 1 || 59 == 64 {
                let mut c = b;
                { let mut m = S0_5::new(&mut c[..]); m.set_f59(v); }
                assert!(S0_5::new(&c[..]).get_f59() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[37..45], 0, 60);
            assert!(s.get_raw_f60() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 4) as i64) >> 4;
            assert!(s.get_f60() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_5::new(&mut c[..]); m.set_f60(v); }
            assert!(updated::<false>(&b[37..45], &c[37..45], 0, 60, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 37, 45), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_5::new(&mut c[..]); m.set_raw_f60(r); }
            assert!(updated::<false>(&b[37..45], &c[37..45], 0, 60, r as u64) && others(&b, &c, 37, 45), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 59 && v as i64 <= (1u64 << 59) as i64 - 1 || 60 == 64 {
                let mut c = b;
                { let mut m = S0_5::new(&mut c[..]); m.set_f60(v); }
                assert!(S0_5::new(&c[..]).get_f60() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[45..53], 0, 61);
            assert!(s.get_raw_f61() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 3) as i64) >> 3;
            assert!(s.get_f61() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_5::new(&mut c[..]); m.set_f61(v); }
            assert!(updated::<false>(&b[45..53], &c[45..53], 0, 61, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 45, 53), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_5::new(&mut c[..]); m.set_raw_f61(r); }
            assert!(updated::<false>(&b[45..53], &c[45..53], 0, 61, r as u64) && others(&b, &c, 45, 53), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 60 && v as i64 <= (1u64 << 60) as i64 - 1 || 61 == 64 {
                let mut c = b;
                { let mut m = S0_5::new(&mut c[..]); m.set_f61(v); }
                assert!(S0_5::new(&c[..]).get_f61() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[53..61], 0, 62);
            assert!(s.get_raw_f62() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 2) as i64) >> 2;
            assert!(s.get_f62() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_5::new(&mut c[..]); m.set_f62(v); }
            assert!(updated::<false>(&b[53..61], &c[53..61], 0, 62, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 53, 61), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_5::new(&mut c[..]); m.set_raw_f62(r); }
            assert!(updated::<false>(&b[53..61], &c[53..61], 0, 62, r as u64) && others(&b, &c, 53, 61), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 61 && v as i64 <= (1u64 << 61) as i64 - 1 || 62 == 64 {
                let mut c = b;
                { let mut m = S0_5::new(&mut c[..]); m.set_f62(v); }
                assert!(S0_5::new(&c[..]).get_f62() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o1_g0() {
        use crate::ilet::*;
        const N: usize = 12;
        assert!(<S1_0<()> as FixedSize>::SIZE == N && SIZE_S1_0 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S1_0::new(&b[..]);
        {
            let raw = field::<false>(&b[0..1], 1, 2);
            assert!(s.get_raw_f2() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 62) as i64) >> 62;
            assert!(s.get_f2() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_0::new(&mut c[..]); m.set_f2(v); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 1, 2, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_0::new(&mut c[..]); m.set_raw_f2(r); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 1, 2, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 1 && v as i64 <= (1u64 << 1) as i64 - 1 || 2 == 64 {
                let mut c = b;
                { let mut m = S1_0::new(&mut c[..]); m.set_f2(v); }
                assert!(S1_0::new(&c[..]).get_f2() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[1..2], 1, 4);
            assert!(s.get_raw_f4() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 60) as i64) >> 60;
            assert!(s.get_f4() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_0::new(&mut c[..]); m.set_f4(v); }
            assert!(updated::<false>(&b[1..2], &c[1..2], 1, 4, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_0::new(&mut c[..]); m.set_raw_f4(r); }
            assert!(updated::<false>(&b[1..2], &c[1..2], 1, 4, r as u64) && others(&b, &c, 1, 2), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 3 && v as i64 <= (1u64 << 3) as i64 - 1 || 4 == 64 {
                let mut c = b;
                { let mut m = S1_0::new(&mut c[..]); m.set_f4(v); }
                assert!(S1_0::new(&c[..]).get_f4() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[2..3], 1, 5);
            assert!(s.get_raw_f5() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 59) as i64) >> 59;
            assert!(s.get_f5() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_0::new(&mut c[..]); m.set_f5(v); }
            assert!(updated::<false>(&b[2..3], &c[2..3], 1, 5, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_0::new(&mut c[..]); m.set_raw_f5(r); }
            assert!(updated::<false>(&b[2..3], &c[2..3], 1, 5, r as u64) && others(&b, &c, 2, 3), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 4 && v as i64 <= (1u64 << 4) as i64 - 1 || 5 == 64 {
                let mut c = b;
                { let mut m = S1_0::new(&mut c[..]); m.set_f5(v); }
                assert!(S1_0::new(&c[..]).get_f5() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[3..4], 1, 6);
            assert!(s.get_raw_f6() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 58) as i64) >> 58;
            assert!(s.get_f6() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_0::new(&mut c[..]); m.set_f6(v); }
            assert!(updated::<false>(&b[3..4], &c[3..4], 1, 6, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_0::new(&mut c[..]); m.set_raw_f6(r); }
            assert!(updated::<false>(&b[3..4], &c[3..4], 1, 6, r as u64) && others(&b, &c, 3, 4), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 5 && v as i64 <= (1u64 << 5) as i64 - 1 || 6 == 64 {
                let mut c = b;
                { let mut m = S1_0::new(&mut c[..]); m.set_f6(v); }
                assert!(S1_0::new(&c[..]).get_f6() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[4..6], 1, 10);
            assert!(s.get_raw_f10() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 54) as i64) >> 54;
            assert!(s.get_f10() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_0::new(&mut c[..]); m.set_f10(v); }
            assert!(updated::<false>(&b[4..6], &c[4..6], 1, 10, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_0::new(&mut c[..]); m.set_raw_f10(r); }
            assert!(updated::<false>(&b[4..6], &c[4..6], 1, 10, r as u64) && others(&b, &c, 4, 6), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 9 && v as i64 <= (1u64 << 9) as i64 - 1 || 10 == 64 {
                let mut c = b;
                { let mut m = S1_0::new(&mut c[..]); m.set_f10(v); }
                assert!(S1_0::new(&c[..]).get_f10() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[6..8], 1, 11);
            assert!(s.get_raw_f11() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 53) as i64) >> 53;
            assert!(s.get_f11() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_0::new(&mut c[..]); m.set_f11(v); }
            assert!(updated::<false>(&b[6..8], &c[6..8], 1, 11, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_0::new(&mut c[..]); m.set_raw_f11(r); }
            assert!(updated::<false>(&b[6..8], &c[6..8], 1, 11, r as u64) && others(&b, &c, 6, 8), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 10 && v as i64 <= (1u64 << 10) as i64 - 1 || 11 == 64 {
                let mut c = b;
                { let mut m = S1_0::new(&mut c[..]); m.set_f11(v); }
                assert!(S1_0::new(&c[..]).get_f11() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[8..10], 1, 12);
            assert!(s.get_raw_f12() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 52) as i64) >> 52;
            assert!(s.get_f12() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_0::new(&mut c[..]); m.set_f12(v); }
            assert!(updated::<false>(&b[8..10], &c[8..10], 1, 12, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 8, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_0::new(&mut c[..]); m.set_raw_f12(r); }
            assert!(updated::<false>(&b[8..10], &c[8..10], 1, 12, r as u64) && others(&b, &c, 8, 10), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 11 && v as i64 <= (1u64 << 11) as i64 - 1 || 12 == 64 {
                let mut c = b;
                { let mut m = S1_0::new(&mut c[..]); m.set_f12(v); }
                assert!(S1_0::new(&c[..]).get_f12() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[10..12], 1, 13);
            assert!(s.get_raw_f13() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 51) as i64) >> 51;
            assert!(s.get_f13() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_0::new(&mut c[..]); m.set_f13(v); }
            assert!(updated::<false>(&b[10..12], &c[10..12], 1, 13, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 12), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_0::new(&mut c[..]); m.set_raw_f13(r); }
            assert!(updated::<false>(&b[10..12], &c[10..12], 1, 13, r as u64) && others(&b, &c, 10, 12), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 12 && v as i64 <= (1u64 << 12) as i64 - 1 || 13 == 64 {
                let mut c = b;
                { let mut m = S1_0::new(&mut c[..]); m.set_f13(v); }
                assert!(S1_0::new(&c[..]).get_f13() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o1_g1() {
        use crate::ilet::*;
        const N: usize = 22;
        assert!(<S1_1<()> as FixedSize>::SIZE == N && SIZE_S1_1 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S1_1::new(&b[..]);
        {
            let raw = field::<false>(&b[0..2], 1, 14);
            assert!(s.get_raw_f14() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 50) as i64) >> 50;
            assert!(s.get_f14() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_1::new(&mut c[..]); m.set_f14(v); }
            assert!(updated::<false>(&b[0..2], &c[0..2], 1, 14, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_1::new(&mut c[..]); m.set_raw_f14(r); }
            assert!(updated::<false>(&b[0..2], &c[0..2], 1, 14, r as u64) && others(&b, &c, 0, 2), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 13 && v as i64 <= (1u64 << 13) as i64 - 1 || 14 == 64 {
                let mut c = b;
                { let mut m = S1_1::new(&mut c[..]); m.set_f14(v); }
                assert!(S1_1::new(&c[..]).get_f14() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[2..4], 1, 15);
            assert!(s.get_raw_f15() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 49) as i64) >> 49;
            assert!(s.get_f15() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_1::new(&mut c[..]); m.set_f15(v); }
            assert!(updated::<false>(&b[2..4], &c[2..4], 1, 15, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_1::new(&mut c[..]); m.set_raw_f15(r); }
            assert!(updated::<false>(&b[2..4], &c[2..4], 1, 15, r as u64) && others(&b, &c, 2, 4), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 14 && v as i64 <= (1u64 << 14) as i64 - 1 || 15 == 64 {
                let mut c = b;
                { let mut m = S1_1::new(&mut c[..]); m.set_f15(v); }
                assert!(S1_1::new(&c[..]).get_f15() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[4..7], 1, 18);
            assert!(s.get_raw_f18() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 46) as i64) >> 46;
            assert!(s.get_f18() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_1::new(&mut c[..]); m.set_f18(v); }
            assert!(updated::<false>(&b[4..7], &c[4..7], 1, 18, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_1::new(&mut c[..]); m.set_raw_f18(r); }
            assert!(updated::<false>(&b[4..7], &c[4..7], 1, 18, r as u64) && others(&b, &c, 4, 7), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 17 && v as i64 <= (1u64 << 17) as i64 - 1 || 18 == 64 {
                let mut c = b;
                { let mut m = S1_1::new(&mut c[..]); m.set_f18(v); }
                assert!(S1_1::new(&c[..]).get_f18() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[7..10], 1, 19);
            assert!(s.get_raw_f19() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 45) as i64) >> 45;
            assert!(s.get_f19() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_1::new(&mut c[..]); m.set_f19(v); }
            assert!(updated::<false>(&b[7..10], &c[7..10], 1, 19, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_1::new(&mut c[..]); m.set_raw_f19(r); }
            assert!(updated::<false>(&b[7..10], &c[7..10], 1, 19, r as u64) && others(&b, &c, 7, 10), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 18 && v as i64 <= (1u64 << 18) as i64 - 1 || 19 == 64 {
                let mut c = b;
                { let mut m = S1_1::new(&mut c[..]); m.set_f19(v); }
                assert!(S1_1::new(&c[..]).get_f19() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[10..13], 1, 20);
            assert!(s.get_raw_f20() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 44) as i64) >> 44;
            assert!(s.get_f20() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_1::new(&mut c[..]); m.set_f20(v); }
            assert!(updated::<false>(&b[10..13], &c[10..13], 1, 20, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_1::new(&mut c[..]); m.set_raw_f20(r); }
            assert!(updated::<false>(&b[10..13], &c[10..13], 1, 20, r as u64) && others(&b, &c, 10, 13), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 19 && v as i64 <= (1u64 << 19) as i64 - 1 || 20 == 64 {
                let mut c = b;
                { let mut m = S1_1::new(&mut c[..]); m.set_f20(v); }
                assert!(S1_1::new(&c[..]).get_f20() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[13..16], 1, 21);
            assert!(s.get_raw_f21() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 43) as i64) >> 43;
            assert!(s.get_f21() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_1::new(&mut c[..]); m.set_f21(v); }
            assert!(updated::<false>(&b[13..16], &c[13..16], 1, 21, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 13, 16), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_1::new(&mut c[..]); m.set_raw_f21(r); }
            assert!(updated::<false>(&b[13..16], &c[13..16], 1, 21, r as u64) && others(&b, &c, 13, 16), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 20 && v as i64 <= (1u64 << 20) as i64 - 1 || 21 == 64 {
                let mut c = b;
                { let mut m = S1_1::new(&mut c[..]); m.set_f21(v); }
                assert!(S1_1::new(&c[..]).get_f21() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[16..19], 1, 22);
            assert!(s.get_raw_f22() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 42) as i64) >> 42;
            assert!(s.get_f22() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_1::new(&mut c[..]); m.set_f22(v); }
            assert!(updated::<false>(&b[16..19], &c[16..19], 1, 22, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_1::new(&mut c[..]); m.set_raw_f22(r); }
            assert!(updated::<false>(&b[16..19], &c[16..19], 1, 22, r as u64) && others(&b, &c, 16, 19), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 21 && v as i64 <= (1u64 << 21) as i64 - 1 || 22 == 64 {
                let mut c = b;
                { let mut m = S1_1::new(&mut c[..]); m.set_f22(v); }
                assert!(S1_1::new(&c[..]).get_f22() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[19..22], 1, 23);
            assert!(s.get_raw_f23() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 41) as i64) >> 41;
            assert!(s.get_f23() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_1::new(&mut c[..]); m.set_f23(v); }
            assert!(updated::<false>(&b[19..22], &c[19..22], 1, 23, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 19, 22), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_1::new(&mut c[..]); m.set_raw_f23(r); }
            assert!(updated::<false>(&b[19..22], &c[19..22], 1, 23, r as u64) && others(&b, &c, 19, 22), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 22 && v as i64 <= (1u64 << 22) as i64 - 1 || 23 == 64 {
                let mut c = b;
                { let mut m = S1_1::new(&mut c[..]); m.set_f23(v); }
                assert!(S1_1::new(&c[..]).get_f23() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o1_g2() {
        use crate::ilet::*;
        const N: usize = 34;
        assert!(<S1_2<()> as FixedSize>::SIZE == N && SIZE_S1_2 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S1_2::new(&b[..]);
        {
            let raw = field::<false>(&b[0..4], 1, 26);
            assert!(s.get_raw_f26() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 38) as i64) >> 38;
            assert!(s.get_f26() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_2::new(&mut c[..]); m.set_f26(v); }
            assert!(updated::<false>(&b[0..4], &c[0..4], 1, 26, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_2::new(&mut c[..]); m.set_raw_f26(r); }
            assert!(updated::<false>(&b[0..4], &c[0..4], 1, 26, r as u64) && others(&b, &c, 0, 4), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 25 && v as i64 <= (1u64 << 25) as i64 - 1 || 26 == 64 {
                let mut c = b;
                { let mut m = S1_2::new(&mut c[..]); m.set_f26(v); }
                assert!(S1_2::new(&c[..]).get_f26() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[4..8], 1, 27);
            assert!(s.get_raw_f27() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 37) as i64) >> 37;
            assert!(s.get_f27() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_2::new(&mut c[..]); m.set_f27(v); }
            assert!(updated::<false>(&b[4..8], &c[4..8], 1, 27, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_2::new(&mut c[..]); m.set_raw_f27(r); }
            assert!(updated::<false>(&b[4..8], &c[4..8], 1, 27, r as u64) && others(&b, &c, 4, 8), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 26 && v as i64 <= (1u64 << 26) as i64 - 1 || 27 == 64 {
                let mut c = b;
                { let mut m = S1_2::new(&mut c[..]); m.set_f27(v); }
                assert!(S1_2::new(&c[..]).get_f27() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[8..12], 1, 28);
            assert!(s.get_raw_f28() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 36) as i64) >> 36;
            assert!(s.get_f28() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_2::new(&mut c[..]); m.set_f28(v); }
            assert!(updated::<false>(&b[8..12], &c[8..12], 1, 28, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 8, 12), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_2::new(&mut c[..]); m.set_raw_f28(r); }
            assert!(updated::<false>(&b[8..12], &c[8..12], 1, 28, r as u64) && others(&b, &c, 8, 12), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 27 && v as i64 <= (1u64 << 27) as i64 - 1 || 28 == 64 {
                let mut c = b;
                { let mut m = S1_2::new(&mut c[..]); m.set_f28(v); }
                assert!(S1_2::new(&c[..]).get_f28() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[12..16], 1, 29);
            assert!(s.get_raw_f29() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 35) as i64) >> 35;
            assert!(s.get_f29() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_2::new(&mut c[..]); m.set_f29(v); }
            assert!(updated::<false>(&b[12..16], &c[12..16], 1, 29, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 16), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_2::new(&mut c[..]); m.set_raw_f29(r); }
            assert!(updated::<false>(&b[12..16], &c[12..16], 1, 29, r as u64) && others(&b, &c, 12, 16), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 28 && v as i64 <= (1u64 << 28) as i64 - 1 || 29 == 64 {
                let mut c = b;
                { let mut m = S1_2::new(&mut c[..]); m.set_f29(v); }
                assert!(S1_2::new(&c[..]).get_f29() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[16..20], 1, 30);
            assert!(s.get_raw_f30() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 34) as i64) >> 34;
            assert!(s.get_f30() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_2::new(&mut c[..]); m.set_f30(v); }
            assert!(updated::<false>(&b[16..20], &c[16..20], 1, 30, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_2::new(&mut c[..]); m.set_raw_f30(r); }
            assert!(updated::<false>(&b[16..20], &c[16..20], 1, 30, r as u64) && others(&b, &c, 16, 20), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 29 && v as i64 <= (1u64 << 29) as i64 - 1 || 30 == 64 {
                let mut c = b;
                { let mut m = S1_2::new(&mut c[..]); m.set_f30(v); }
                assert!(S1_2::new(&c[..]).get_f30() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[20..24], 1, 31);
            assert!(s.get_raw_f31() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 33) as i64) >> 33;
            assert!(s.get_f31() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_2::new(&mut c[..]); m.set_f31(v); }
            assert!(updated::<false>(&b[20..24], &c[20..24], 1, 31, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 24), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_2::new(&mut c[..]); m.set_raw_f31(r); }
            assert!(updated::<false>(&b[20..24], &c[20..24], 1, 31, r as u64) && others(&b, &c, 20, 24), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 30 && v as i64 <= (1u64 << 30) as i64 - 1 || 31 == 64 {
                let mut c = b;
                { let mut m = S1_2::new(&mut c[..]); m.set_f31(v); }
                assert!(S1_2::new(&c[..]).get_f31() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[24..29], 1, 34);
            assert!(s.get_raw_f34() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 30) as i64) >> 30;
            assert!(s.get_f34() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_2::new(&mut c[..]); m.set_f34(v); }
            assert!(updated::<false>(&b[24..29], &c[24..29], 1, 34, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 24, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_2::new(&mut c[..]); m.set_raw_f34(r); }
            assert!(updated::<false>(&b[24..29], &c[24..29], 1, 34, r as u64) && others(&b, &c, 24, 29), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 33 && v as i64 <= (1u64 << 33) as i64 - 1 || 34 == 64 {
                let mut c = b;
                { let mut m = S1_2::new(&mut c[..]); m.set_f34(v); }
                assert!(S1_2::new(&c[..]).get_f34() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[29..34], 1, 35);
            assert!(s.get_raw_f35() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 29) as i64) >> 29;
            assert!(s.get_f35() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_2::new(&mut c[..]); m.set_f35(v); }
            assert!(updated::<false>(&b[29..34], &c[29..34], 1, 35, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 29, 34), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_2::new(&mut c[..]); m.set_raw_f35(r); }
            assert!(updated::<false>(&b[29..34], &c[29..34], 1, 35, r as u64) && others(&b, &c, 29, 34), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 34 && v as i64 <= (1u64 << 34) as i64 - 1 || 35 == 64 {
                let mut c = b;
                { let mut m = S1_2::new(&mut c[..]); m.set_f35(v); }
                assert!(S1_2::new(&c[..]).get_f35() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o1_g3() {
        use crate::ilet::*;
        const N: usize = 44;
        assert!(<S1_3<()> as FixedSize>::SIZE == N && SIZE_S1_3 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S1_3::new(&b[..]);
        {
            let raw = field::<false>(&b[0..5], 1, 36);
            assert!(s.get_raw_f36() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 28) as i64) >> 28;
            assert!(s.get_f36() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_3::new(&mut c[..]); m.set_f36(v); }
            assert!(updated::<false>(&b[0..5], &c[0..5], 1, 36, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_3::new(&mut c[..]); m.set_raw_f36(r); }
            assert!(updated::<false>(&b[0..5], &c[0..5], 1, 36, r as u64) && others(&b, &c, 0, 5), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 35 && v as i64 <= (1u64 << 35) as i64 - 1 || 36 == 64 {
                let mut c = b;
                { let mut m = S1_3::new(&mut c[..]); m.set_f36(v); }
                assert!(S1_3::new(&c[..]).get_f36() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[5..10], 1, 37);
            assert!(s.get_raw_f37() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 27) as i64) >> 27;
            assert!(s.get_f37() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_3::new(&mut c[..]); m.set_f37(v); }
            assert!(updated::<false>(&b[5..10], &c[5..10], 1, 37, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_3::new(&mut c[..]); m.set_raw_f37(r); }
            assert!(updated::<false>(&b[5..10], &c[5..10], 1, 37, r as u64) && others(&b, &c, 5, 10), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 36 && v as i64 <= (1u64 << 36) as i64 - 1 || 37 == 64 {
                let mut c = b;
                { let mut m = S1_3::new(&mut c[..]); m.set_f37(v); }
                assert!(S1_3::new(&c[..]).get_f37() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[10..15], 1, 38);
            assert!(s.get_raw_f38() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 26) as i64) >> 26;
            assert!(s.get_f38() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_3::new(&mut c[..]); m.set_f38(v); }
            assert!(updated::<false>(&b[10..15], &c[10..15], 1, 38, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 15), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_3::new(&mut c[..]); m.set_raw_f38(r); }
            assert!(updated::<false>(&b[10..15], &c[10..15], 1, 38, r as u64) && others(&b, &c, 10, 15), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 37 && v as i64 <= (1u64 << 37) as i64 - 1 || 38 == 64 {
                let mut c = b;
                { let mut m = S1_3::new(&mut c[..]); m.set_f38(v); }
                assert!(S1_3::new(&c[..]).get_f38() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[15..20], 1, 39);
            assert!(s.get_raw_f39() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 25) as i64) >> 25;
            assert!(s.get_f39() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_3::new(&mut c[..]); m.set_f39(v); }
            assert!(updated::<false>(&b[15..20], &c[15..20], 1, 39, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 15, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_3::new(&mut c[..]); m.set_raw_f39(r); }
            assert!(updated::<false>(&b[15..20], &c[15..20], 1, 39, r as u64) && others(&b, &c, 15, 20), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 38 && v as i64 <= (1u64 << 38) as i64 - 1 || 39 == 64 {
                let mut c = b;
                { let mut m = S1_3::new(&mut c[..]); m.set_f39(v); }
                assert!(S1_3::new(&c[..]).get_f39() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[20..26], 1, 41);
            assert!(s.get_raw_f41() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 23) as i64) >> 23;
            assert!(s.get_f41() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_3::new(&mut c[..]); m.set_f41(v); }
            assert!(updated::<false>(&b[20..26], &c[20..26], 1, 41, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 26), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_3::new(&mut c[..]); m.set_raw_f41(r); }
            assert!(updated::<false>(&b[20..26], &c[20..26], 1, 41, r as u64) && others(&b, &c, 20, 26), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 40 && v as i64 <= (1u64 << 40) as i64 - 1 || 41 == 64 {
                let mut c = b;
                { let mut m = S1_3::new(&mut c[..]); m.set_f41(v); }
                assert!(S1_3::new(&c[..]).get_f41() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[26..32], 1, 42);
            assert!(s.get_raw_f42() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 22) as i64) >> 22;
            assert!(s.get_f42() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_3::new(&mut c[..]); m.set_f42(v); }
            assert!(updated::<false>(&b[26..32], &c[26..32], 1, 42, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 26, 32), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_3::new(&mut c[..]); m.set_raw_f42(r); }
            assert!(updated::<false>(&b[26..32], &c[26..32], 1, 42, r as u64) && others(&b, &c, 26, 32), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 41 && v as i64 <= (1u64 << 41) as i64 - 1 || 42 == 64 {
                let mut c = b;
                { let mut m = S1_3::new(&mut c[..]); m.set_f42(v); }
                assert!(S1_3::new(&c[..]).get_f42() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[32..38], 1, 43);
            assert!(s.get_raw_f43() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 21) as i64) >> 21;
            assert!(s.get_f43() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_3::new(&mut c[..]); m.set_f43(v); }
            assert!(updated::<false>(&b[32..38], &c[32..38], 1, 43, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 32, 38), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_3::new(&mut c[..]); m.set_raw_f43(r); }
            assert!(updated::<false>(&b[32..38], &c[32..38], 1, 43, r as u64) && others(&b, &c, 32, 38), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 42 && v as i64 <= (1u64 << 42) as i64 - 1 || 43 == 64 {
                let mut c = b;
                { let mut m = S1_3::new(&mut c[..]); m.set_f43(v); }
                assert!(S1_3::new(&c[..]).get_f43() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[38..44], 1, 44);
            assert!(s.get_raw_f44() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 20) as i64) >> 20;
            assert!(s.get_f44() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_3::new(&mut c[..]); m.set_f44(v); }
            assert!(updated::<false>(&b[38..44], &c[38..44], 1, 44, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 38, 44), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_3::new(&mut c[..]); m.set_raw_f44(r); }
            assert!(updated::<false>(&b[38..44], &c[38..44], 1, 44, r as u64) && others(&b, &c, 38, 44), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 43 && v as i64 <= (1u64 << 43) as i64 - 1 || 44 == 64 {
                let mut c = b;
                { let mut m = S1_3::new(&mut c[..]); m.set_f44(v); }
                assert!(S1_3::new(&c[..]).get_f44() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o1_g4() {
        use crate::ilet::*;
        const N: usize = 52;
        assert!(<S1_4<()> as FixedSize>::SIZE == N && SIZE_S1_4 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S1_4::new(&b[..]);
        {
            let raw = field::<false>(&b[0..6], 1, 45);
            assert!(s.get_raw_f45() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 19) as i64) >> 19;
            assert!(s.get_f45() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_4::new(&mut c[..]); m.set_f45(v); }
            assert!(updated::<false>(&b[0..6], &c[0..6], 1, 45, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_4::new(&mut c[..]); m.set_raw_f45(r); }
            assert!(updated::<false>(&b[0..6], &c[0..6], 1, 45, r as u64) && others(&b, &c, 0, 6), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 44 && v as i64 <= (1u64 << 44) as i64 - 1 || 45 == 64 {
                let mut c = b;
                { let mut m = S1_4::new(&mut c[..]); m.set_f45(v); }
                assert!(S1_4::new(&c[..]).get_f45() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[6..12], 1, 46);
            assert!(s.get_raw_f46() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 18) as i64) >> 18;
            assert!(s.get_f46() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_4::new(&mut c[..]); m.set_f46(v); }
            assert!(updated::<false>(&b[6..12], &c[6..12], 1, 46, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 12), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_4::new(&mut c[..]); m.set_raw_f46(r); }
            assert!(updated::<false>(&b[6..12], &c[6..12], 1, 46, r as u64) && others(&b, &c, 6, 12), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 45 && v as i64 <= (1u64 << 45) as i64 - 1 || 46 == 64 {
                let mut c = b;
                { let mut m = S1_4::new(&mut c[..]); m.set_f46(v); }
                assert!(S1_4::new(&c[..]).get_f46() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[12..18], 1, 47);
            assert!(s.get_raw_f47() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 17) as i64) >> 17;
            assert!(s.get_f47() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_4::new(&mut c[..]); m.set_f47(v); }
            assert!(updated::<false>(&b[12..18], &c[12..18], 1, 47, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 18), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_4::new(&mut c[..]); m.set_raw_f47(r); }
            assert!(updated::<false>(&b[12..18], &c[12..18], 1, 47, r as u64) && others(&b, &c, 12, 18), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 46 && v as i64 <= (1u64 << 46) as i64 - 1 || 47 == 64 {
                let mut c = b;
                { let mut m = S1_4::new(&mut c[..]); m.set_f47(v); }
                assert!(S1_4::new(&c[..]).get_f47() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[18..25], 1, 48);
            assert!(s.get_raw_f48() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 16) as i64) >> 16;
            assert!(s.get_f48() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_4::new(&mut c[..]); m.set_f48(v); }
            assert!(updated::<false>(&b[18..25], &c[18..25], 1, 48, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 18, 25), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_4::new(&mut c[..]); m.set_raw_f48(r); }
            assert!(updated::<false>(&b[18..25], &c[18..25], 1, 48, r as u64) && others(&b, &c, 18, 25), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 47 && v as i64 <= (1u64 << 47) as i64 - 1 || 48 == 64 {
                let mut c = b;
                { let mut m = S1_4::new(&mut c[..]); m.set_f48(v); }
                assert!(S1_4::new(&c[..]).get_f48() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[24..31], 1, 49);
            assert!(s.get_raw_f49() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 15) as i64) >> 15;
            assert!(s.get_f49() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_4::new(&mut c[..]); m.set_f49(v); }
            assert!(updated::<false>(&b[24..31], &c[24..31], 1, 49, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 24, 31), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_4::new(&mut c[..]); m.set_raw_f49(r); }
            assert!(updated::<false>(&b[24..31], &c[24..31], 1, 49, r as u64) && others(&b, &c, 24, 31), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 48 && v as i64 <= (1u64 << 48) as i64 - 1 || 49 == 64 {
                let mut c = b;
                { let mut m = S1_4::new(&mut c[..]); m.set_f49(v); }
                assert!(S1_4::new(&c[..]).get_f49() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[31..38], 1, 50);
            assert!(s.get_raw_f50() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 14) as i64) >> 14;
            assert!(s.get_f50() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_4::new(&mut c[..]); m.set_f50(v); }
            assert!(updated::<false>(&b[31..38], &c[31..38], 1, 50, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 31, 38), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_4::new(&mut c[..]); m.set_raw_f50(r); }
            assert!(updated::<false>(&b[31..38], &c[31..38], 1, 50, r as u64) && others(&b, &c, 31, 38), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 49 && v as i64 <= (1u64 << 49) as i64 - 1 || 50 == 64 {
                let mut c = b;
                { let mut m = S1_4::new(&mut c[..]); m.set_f50(v); }
                assert!(S1_4::new(&c[..]).get_f50() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[38..45], 1, 51);
            assert!(s.get_raw_f51() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 13) as i64) >> 13;
            assert!(s.get_f51() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_4::new(&mut c[..]); m.set_f51(v); }
            assert!(updated::<false>(&b[38..45], &c[38..45], 1, 51, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 38, 45), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_4::new(&mut c[..]); m.set_raw_f51(r); }
            assert!(updated::<false>(&b[38..45], &c[38..45], 1, 51, r as u64) && others(&b, &c, 38, 45), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 50 && v as i64 <= (1u64 << 50) as i64 - 1 || 51 == 64 {
                let mut c = b;
                { let mut m = S1_4::new(&mut c[..]); m.set_f51(v); }
                assert!(S1_4::new(&c[..]).get_f51() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[45..52], 1, 52);
            assert!(s.get_raw_f52() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 12) as i64) >> 12;
            assert!(s.get_f52() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_4::new(&mut c[..]); m.set_f52(v); }
            assert!(updated::<false>(&b[45..52], &c[45..52], 1, 52, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 45, 52), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_4::new(&mut c[..]); m.set_raw_f52(r); }
            assert!(updated::<false>(&b[45..52], &c[45..52], 1, 52, r as u64) && others(&b, &c, 45, 52), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 51 && v as i64 <= (1u64 << 51) as i64 - 1 || 52 == 64 {
                let mut c = b;
                { let mut m = S1_4::new(&mut c[..]); m.set_f52(v); }
                assert!(S1_4::new(&c[..]).get_f52() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o1_g5() {
        use crate::ilet::*;
        const N: usize = 61;
        assert!(<S1_5<()> as FixedSize>::SIZE == N && SIZE_S1_5 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S1_5::new(&b[..]);
        {
            let raw = field::<false>(&b[0..7], 1, 53);
            assert!(s.get_raw_f53() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 11) as i64) >> 11;
            assert!(s.get_f53() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_5::new(&mut c[..]); m.set_f53(v); }
            assert!(updated::<false>(&b[0..7], &c[0..7], 1, 53, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_5::new(&mut c[..]); m.set_raw_f53(r); }
            assert!(updated::<false>(&b[0..7], &c[0..7], 1, 53, r as u64) && others(&b, &c, 0, 7), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 52 && v as i64 <= (1u64 << 52) as i64 - 1 || 53 == 64 {
                let mut c = b;
                { let mut m = S1_5::new(&mut c[..]); m.set_f53(v); }
                assert!(S1_5::new(&c[..]).get_f53() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[7..14], 1, 54);
            assert!(s.get_raw_f54() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 10) as i64) >> 10;
            assert!(s.get_f54() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_5::new(&mut c[..]); m.set_f54(v); }
            assert!(updated::<false>(&b[7..14], &c[7..14], 1, 54, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 14), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_5::new(&mut c[..]); m.set_raw_f54(r); }
            assert!(updated::<false>(&b[7..14], &c[7..14], 1, 54, r as u64) && others(&b, &c, 7, 14), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 53 && v as i64 <= (1u64 << 53) as i64 - 1 || 54 == 64 {
                let mut c = b;
                { let mut m = S1_5::new(&mut c[..]); m.set_f54(v); }
                assert!(S1_5::new(&c[..]).get_f54() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[14..21], 1, 55);
            assert!(s.get_raw_f55() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 9) as i64) >> 9;
            assert!(s.get_f55() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_5::new(&mut c[..]); m.set_f55(v); }
            assert!(updated::<false>(&b[14..21], &c[14..21], 1, 55, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 14, 21), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_5::new(&mut c[..]); m.set_raw_f55(r); }
            assert!(updated::<false>(&b[14..21], &c[14..21], 1, 55, r as u64) && others(&b, &c, 14, 21), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 54 && v as i64 <= (1u64 << 54) as i64 - 1 || 55 == 64 {
                let mut c = b;
                { let mut m = S1_5::new(&mut c[..]); m.set_f55(v); }
                assert!(S1_5::new(&c[..]).get_f55() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[21..29], 1, 58);
            assert!(s.get_raw_f58() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 6) as i64) >> 6;
            assert!(s.get_f58() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_5::new(&mut c[..]); m.set_f58(v); }
            assert!(updated::<false>(&b[21..29], &c[21..29], 1, 58, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 21, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_5::new(&mut c[..]); m.set_raw_f58(r); }
            assert!(updated::<false>(&b[21..29], &c[21..29], 1, 58, r as u64) && others(&b, &c, 21, 29), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 57 && v as i64 <= (1u64 << 57) as i64 - 1 || 58 == 64 {
                let mut c = b;
                { let mut m = S1_5::new(&mut c[..]); m.set_f58(v); }
                assert!(S1_5::new(&c[..]).get_f58() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[29..37], 1, 59);
            assert!(s.get_raw_f59() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 5) as i64) >> 5;
            assert!(s.get_f59() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_5::new(&mut c[..]); m.set_f59(v); }
            assert!(updated::<false>(&b[29..37], &c[29..37], 1, 59, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 29, 37), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_5::new(&mut c[..]); m.set_raw_f59(r); }
            assert!(updated::<false>(&b[29..37], &c[29..37], 1, 59, r as u64) && others(&b, &c, 29, 37), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 58 && v as i64 <= (1u64 << 58) as i64 - 1 || 59 == 64 {
                let mut c = b;
                { let mut m = S1_5::new(&mut c[..]); m.set_f59(v); }
                assert!(S1_5::new(&c[..]).get_f59() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[37..45], 1, 60);
            assert!(s.get_raw_f60() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 4) as i64) >> 4;
            assert!(s.get_f60() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_5::new(&mut c[..]); m.set_f60(v); }
            assert!(updated::<false>(&b[37..45], &c[37..45], 1, 60, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 37, 45), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_5::new(&mut c[..]); m.set_raw_f60(r); }
            assert!(updated::<false>(&b[37..45], &c[37..45], 1, 60, r as u64) && others(&b, &c, 37, 45), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 59 && v as i64 <= (1u64 << 59) as i64 - 1 || 60 == 64 {
                let mut c = b;
                { let mut m = S1_5::new(&mut c[..]); m.set_f60(v); }
                assert!(S1_5::new(&c[..]).get_f60() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[45..53], 1, 61);
            assert!(s.get_raw_f61() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 3) as i64) >> 3;
            assert!(s.get_f61() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_5::new(&mut c[..]); m.set_f61(v); }
            assert!(updated::<false>(&b[45..53], &c[45..53], 1, 61, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 45, 53), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_5::new(&mut c[..]); m.set_raw_f61(r); }
            assert!(updated::<false>(&b[45..53], &c[45..53], 1, 61, r as u64) && others(&b, &c, 45, 53), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 60 && v as i64 <= (1u64 << 60) as i64 - 1 || 61 == 64 {
                let mut c = b;
                { let mut m = S1_5::new(&mut c[..]); m.set_f61(v); }
                assert!(S1_5::new(&c[..]).get_f61() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[53..61], 1, 62);
            assert!(s.get_raw_f62() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 2) as i64) >> 2;
            assert!(s.get_f62() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_5::new(&mut c[..]); m.set_f62(v); }
            assert!(updated::<false>(&b[53..61], &c[53..61], 1, 62, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 53, 61), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_5::new(&mut c[..]); m.set_raw_f62(r); }
            assert!(updated::<false>(&b[53..61], &c[53..61], 1, 62, r as u64) && others(&b, &c, 53, 61), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 61 && v as i64 <= (1u64 << 61) as i64 - 1 || 62 == 64 {
                let mut c = b;
                { let mut m = S1_5::new(&mut c[..]); m.set_f62(v); }
                assert!(S1_5::new(&c[..]).get_f62() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o2_g0() {
        use crate::ilet::*;
        const N: usize = 12;
        assert!(<S2_0<()> as FixedSize>::SIZE == N && SIZE_S2_0 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S2_0::new(&b[..]);
        {
            let raw = field::<false>(&b[0..1], 2, 2);
            assert!(s.get_raw_f2() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 62) as i64) >> 62;
            assert!(s.get_f2() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_0::new(&mut c[..]); m.set_f2(v); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 2, 2, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_0::new(&mut c[..]); m.set_raw_f2(r); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 2, 2, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 1 && v as i64 <= (1u64 << 1) as i64 - 1 || 2 == 64 {
                let mut c = b;
                { let mut m = S2_0::new(&mut c[..]); m.set_f2(v); }
                assert!(S2_0::new(&c[..]).get_f2() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[1..2], 2, 4);
            assert!(s.get_raw_f4() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 60) as i64) >> 60;
            assert!(s.get_f4() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_0::new(&mut c[..]); m.set_f4(v); }
            assert!(updated::<false>(&b[1..2], &c[1..2], 2, 4, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_0::new(&mut c[..]); m.set_raw_f4(r); }
            assert!(updated::<false>(&b[1..2], &c[1..2], 2, 4, r as u64) && others(&b, &c, 1, 2), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 3 && v as i64 <= (1u64 << 3) as i64 - 1 || 4 == 64 {
                let mut c = b;
                { let mut m = S2_0::new(&mut c[..]); m.set_f4(v); }
                assert!(S2_0::new(&c[..]).get_f4() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[2..3], 2, 5);
            assert!(s.get_raw_f5() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 59) as i64) >> 59;
            assert!(s.get_f5() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_0::new(&mut c[..]); m.set_f5(v); }
            assert!(updated::<false>(&b[2..3], &c[2..3], 2, 5, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_0::new(&mut c[..]); m.set_raw_f5(r); }
            assert!(updated::<false>(&b[2..3], &c[2..3], 2, 5, r as u64) && others(&b, &c, 2, 3), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 4 && v as i64 <= (1u64 << 4) as i64 - 1 || 5 == 64 {
                let mut c = b;
                { let mut m = S2_0::new(&mut c[..]); m.set_f5(v); }
                assert!(S2_0::new(&c[..]).get_f5() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[3..4], 2, 6);
            assert!(s.get_raw_f6() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 58) as i64) >> 58;
            assert!(s.get_f6() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_0::new(&mut c[..]); m.set_f6(v); }
            assert!(updated::<false>(&b[3..4], &c[3..4], 2, 6, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_0::new(&mut c[..]); m.set_raw_f6(r); }
            assert!(updated::<false>(&b[3..4], &c[3..4], 2, 6, r as u64) && others(&b, &c, 3, 4), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 5 && v as i64 <= (1u64 << 5) as i64 - 1 || 6 == 64 {
                let mut c = b;
                { let mut m = S2_0::new(&mut c[..]); m.set_f6(v); }
                assert!(S2_0::new(&c[..]).get_f6() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[4..6], 2, 10);
            assert!(s.get_raw_f10() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 54) as i64) >> 54;
            assert!(s.get_f10() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_0::new(&mut c[..]); m.set_f10(v); }
            assert!(updated::<false>(&b[4..6], &c[4..6], 2, 10, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_0::new(&mut c[..]); m.set_raw_f10(r); }
            assert!(updated::<false>(&b[4..6], &c[4..6], 2, 10, r as u64) && others(&b, &c, 4, 6), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 9 && v as i64 <= (1u64 << 9) as i64 - 1 || 10 == 64 {
                let mut c = b;
                { let mut m = S2_0::new(&mut c[..]); m.set_f10(v); }
                assert!(S2_0::new(&c[..]).get_f10() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[6..8], 2, 11);
            assert!(s.get_raw_f11() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 53) as i64) >> 53;
            assert!(s.get_f11() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_0::new(&mut c[..]); m.set_f11(v); }
            assert!(updated::<false>(&b[6..8], &c[6..8], 2, 11, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_0::new(&mut c[..]); m.set_raw_f11(r); }
            assert!(updated::<false>(&b[6..8], &c[6..8], 2, 11, r as u64) && others(&b, &c, 6, 8), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 10 && v as i64 <= (1u64 << 10) as i64 - 1 || 11 == 64 {
                let mut c = b;
                { let mut m = S2_0::new(&mut c[..]); m.set_f11(v); }
                assert!(S2_0::new(&c[..]).get_f11() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[8..10], 2, 12);
            assert!(s.get_raw_f12() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 52) as i64) >> 52;
            assert!(s.get_f12() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_0::new(&mut c[..]); m.set_f12(v); }
            assert!(updated::<false>(&b[8..10], &c[8..10], 2, 12, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 8, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_0::new(&mut c[..]); m.set_raw_f12(r); }
            assert!(updated::<false>(&b[8..10], &c[8..10], 2, 12, r as u64) && others(&b, &c, 8, 10), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 11 && v as i64 <= (1u64 << 11) as i64 - 1 || 12 == 64 {
                let mut c = b;
                { let mut m = S2_0::new(&mut c[..]); m.set_f12(v); }
                assert!(S2_0::new(&c[..]).get_f12() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[10..12], 2, 13);
            assert!(s.get_raw_f13() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 51) as i64) >> 51;
            assert!(s.get_f13() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_0::new(&mut c[..]); m.set_f13(v); }
            assert!(updated::<false>(&b[10..12], &c[10..12], 2, 13, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 12), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_0::new(&mut c[..]); m.set_raw_f13(r); }
            assert!(updated::<false>(&b[10..12], &c[10..12], 2, 13, r as u64) && others(&b, &c, 10, 12), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 12 && v as i64 <= (1u64 << 12) as i64 - 1 || 13 == 64 {
                let mut c = b;
                { let mut m = S2_0::new(&mut c[..]); m.set_f13(v); }
                assert!(S2_0::new(&c[..]).get_f13() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o2_g1() {
        use crate::ilet::*;
        const N: usize = 23;
        assert!(<S2_1<()> as FixedSize>::SIZE == N && SIZE_S2_1 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S2_1::new(&b[..]);
        {
            let raw = field::<false>(&b[0..2], 2, 14);
            assert!(s.get_raw_f14() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 50) as i64) >> 50;
            assert!(s.get_f14() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_1::new(&mut c[..]); m.set_f14(v); }
            assert!(updated::<false>(&b[0..2], &c[0..2], 2, 14, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_1::new(&mut c[..]); m.set_raw_f14(r); }
            assert!(updated::<false>(&b[0..2], &c[0..2], 2, 14, r as u64) && others(&b, &c, 0, 2), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 13 && v as i64 <= (1u64 << 13) as i64 - 1 || 14 == 64 {
                let mut c = b;
                { let mut m = S2_1::new(&mut c[..]); m.set_f14(v); }
                assert!(S2_1::new(&c[..]).get_f14() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[2..5], 2, 15);
            assert!(s.get_raw_f15() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 49) as i64) >> 49;
            assert!(s.get_f15() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_1::new(&mut c[..]); m.set_f15(v); }
            assert!(updated::<false>(&b[2..5], &c[2..5], 2, 15, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_1::new(&mut c[..]); m.set_raw_f15(r); }
            assert!(updated::<false>(&b[2..5], &c[2..5], 2, 15, r as u64) && others(&b, &c, 2, 5), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 14 && v as i64 <= (1u64 << 14) as i64 - 1 || 15 == 64 {
                let mut c = b;
                { let mut m = S2_1::new(&mut c[..]); m.set_f15(v); }
                assert!(S2_1::new(&c[..]).get_f15() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[4..7], 2, 18);
            assert!(s.get_raw_f18() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 46) as i64) >> 46;
            assert!(s.get_f18() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_1::new(&mut c[..]); m.set_f18(v); }
            assert!(updated::<false>(&b[4..7], &c[4..7], 2, 18, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_1::new(&mut c[..]); m.set_raw_f18(r); }
            assert!(updated::<false>(&b[4..7], &c[4..7], 2, 18, r as u64) && others(&b, &c, 4, 7), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 17 && v as i64 <= (1u64 << 17) as i64 - 1 || 18 == 64 {
                let mut c = b;
                { let mut m = S2_1::new(&mut c[..]); m.set_f18(v); }
                assert!(S2_1::new(&c[..]).get_f18() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[7..10], 2, 19);
            assert!(s.get_raw_f19() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 45) as i64) >> 45;
            assert!(s.get_f19() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_1::new(&mut c[..]); m.set_f19(v); }
            assert!(updated::<false>(&b[7..10], &c[7..10], 2, 19, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_1::new(&mut c[..]); m.set_raw_f19(r); }
            assert!(updated::<false>(&b[7..10], &c[7..10], 2, 19, r as u64) && others(&b, &c, 7, 10), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 18 && v as i64 <= (1u64 << 18) as i64 - 1 || 19 == 64 {
                let mut c = b;
                { let mut m = S2_1::new(&mut c[..]); m.set_f19(v); }
                assert!(S2_1::new(&c[..]).get_f19() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[10..13], 2, 20);
            assert!(s.get_raw_f20() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 44) as i64) >> 44;
            assert!(s.get_f20() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_1::new(&mut c[..]); m.set_f20(v); }
            assert!(updated::<false>(&b[10..13], &c[10..13], 2, 20, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_1::new(&mut c[..]); m.set_raw_f20(r); }
            assert!(updated::<false>(&b[10..13], &c[10..13], 2, 20, r as u64) && others(&b, &c, 10, 13), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 19 && v as i64 <= (1u64 << 19) as i64 - 1 || 20 == 64 {
                let mut c = b;
                { let mut m = S2_1::new(&mut c[..]); m.set_f20(v); }
                assert!(S2_1::new(&c[..]).get_f20() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[13..16], 2, 21);
            assert!(s.get_raw_f21() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 43) as i64) >> 43;
            assert!(s.get_f21() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_1::new(&mut c[..]); m.set_f21(v); }
            assert!(updated::<false>(&b[13..16], &c[13..16], 2, 21, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 13, 16), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_1::new(&mut c[..]); m.set_raw_f21(r); }
            assert!(updated::<false>(&b[13..16], &c[13..16], 2, 21, r as u64) && others(&b, &c, 13, 16), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 20 && v as i64 <= (1u64 << 20) as i64 - 1 || 21 == 64 {
                let mut c = b;
                { let mut m = S2_1::new(&mut c[..]); m.set_f21(v); }
                assert!(S2_1::new(&c[..]).get_f21() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[16..19], 2, 22);
            assert!(s.get_raw_f22() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 42) as i64) >> 42;
            assert!(s.get_f22() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_1::new(&mut c[..]); m.set_f22(v); }
            assert!(updated::<false>(&b[16..19], &c[16..19], 2, 22, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_1::new(&mut c[..]); m.set_raw_f22(r); }
            assert!(updated::<false>(&b[16..19], &c[16..19], 2, 22, r as u64) && others(&b, &c, 16, 19), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 21 && v as i64 <= (1u64 << 21) as i64 - 1 || 22 == 64 {
                let mut c = b;
                { let mut m = S2_1::new(&mut c[..]); m.set_f22(v); }
                assert!(S2_1::new(&c[..]).get_f22() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[19..23], 2, 23);
            assert!(s.get_raw_f23() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 41) as i64) >> 41;
            assert!(s.get_f23() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_1::new(&mut c[..]); m.set_f23(v); }
            assert!(updated::<false>(&b[19..23], &c[19..23], 2, 23, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 19, 23), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_1::new(&mut c[..]); m.set_raw_f23(r); }
            assert!(updated::<false>(&b[19..23], &c[19..23], 2, 23, r as u64) && others(&b, &c, 19, 23), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 22 && v as i64 <= (1u64 << 22) as i64 - 1 || 23 == 64 {
                let mut c = b;
                { let mut m = S2_1::new(&mut c[..]); m.set_f23(v); }
                assert!(S2_1::new(&c[..]).get_f23() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o2_g2() {
        use crate::ilet::*;
        const N: usize = 34;
        assert!(<S2_2<()> as FixedSize>::SIZE == N && SIZE_S2_2 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S2_2::new(&b[..]);
        {
            let raw = field::<false>(&b[0..4], 2, 26);
            assert!(s.get_raw_f26() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 38) as i64) >> 38;
            assert!(s.get_f26() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_2::new(&mut c[..]); m.set_f26(v); }
            assert!(updated::<false>(&b[0..4], &c[0..4], 2, 26, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_2::new(&mut c[..]); m.set_raw_f26(r); }
            assert!(updated::<false>(&b[0..4], &c[0..4], 2, 26, r as u64) && others(&b, &c, 0, 4), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 25 && v as i64 <= (1u64 << 25) as i64 - 1 || 26 == 64 {
                let mut c = b;
                { let mut m = S2_2::new(&mut c[..]); m.set_f26(v); }
                assert!(S2_2::new(&c[..]).get_f26() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[4..8], 2, 27);
            assert!(s.get_raw_f27() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 37) as i64) >> 37;
            assert!(s.get_f27() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_2::new(&mut c[..]); m.set_f27(v); }
            assert!(updated::<false>(&b[4..8], &c[4..8], 2, 27, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_2::new(&mut c[..]); m.set_raw_f27(r); }
            assert!(updated::<false>(&b[4..8], &c[4..8], 2, 27, r as u64) && others(&b, &c, 4, 8), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 26 && v as i64 <= (1u64 << 26) as i64 - 1 || 27 == 64 {
                let mut c = b;
                { let mut m = S2_2::new(&mut c[..]); m.set_f27(v); }
                assert!(S2_2::new(&c[..]).get_f27() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[8..12], 2, 28);
            assert!(s.get_raw_f28() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 36) as i64) >> 36;
            assert!(s.get_f28() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_2::new(&mut c[..]); m.set_f28(v); }
            assert!(updated::<false>(&b[8..12], &c[8..12], 2, 28, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 8, 12), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_2::new(&mut c[..]); m.set_raw_f28(r); }
            assert!(updated::<false>(&b[8..12], &c[8..12], 2, 28, r as u64) && others(&b, &c, 8, 12), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 27 && v as i64 <= (1u64 << 27) as i64 - 1 || 28 == 64 {
                let mut c = b;
                { let mut m = S2_2::new(&mut c[..]); m.set_f28(v); }
                assert!(S2_2::new(&c[..]).get_f28() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[12..16], 2, 29);
            assert!(s.get_raw_f29() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 35) as i64) >> 35;
            assert!(s.get_f29() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_2::new(&mut c[..]); m.set_f29(v); }
            assert!(updated::<false>(&b[12..16], &c[12..16], 2, 29, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 16), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_2::new(&mut c[..]); m.set_raw_f29(r); }
            assert!(updated::<false>(&b[12..16], &c[12..16], 2, 29, r as u64) && others(&b, &c, 12, 16), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 28 && v as i64 <= (1u64 << 28) as i64 - 1 || 29 == 64 {
                let mut c = b;
                { let mut m = S2_2::new(&mut c[..]); m.set_f29(v); }
                assert!(S2_2::new(&c[..]).get_f29() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[16..20], 2, 30);
            assert!(s.get_raw_f30() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 34) as i64) >> 34;
            assert!(s.get_f30() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_2::new(&mut c[..]); m.set_f30(v); }
            assert!(updated::<false>(&b[16..20], &c[16..20], 2, 30, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_2::new(&mut c[..]); m.set_raw_f30(r); }
            assert!(updated::<false>(&b[16..20], &c[16..20], 2, 30, r as u64) && others(&b, &c, 16, 20), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 29 && v as i64 <= (1u64 << 29) as i64 - 1 || 30 == 64 {
                let mut c = b;
                { let mut m = S2_2::new(&mut c[..]); m.set_f30(v); }
                assert!(S2_2::new(&c[..]).get_f30() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[20..25], 2, 31);
            assert!(s.get_raw_f31() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 33) as i64) >> 33;
            assert!(s.get_f31() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_2::new(&mut c[..]); m.set_f31(v); }
            assert!(updated::<false>(&b[20..25], &c[20..25], 2, 31, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 25), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_2::new(&mut c[..]); m.set_raw_f31(r); }
            assert!(updated::<false>(&b[20..25], &c[20..25], 2, 31, r as u64) && others(&b, &c, 20, 25), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 30 && v as i64 <= (1u64 << 30) as i64 - 1 || 31 == 64 {
                let mut c = b;
                { let mut m = S2_2::new(&mut c[..]); m.set_f31(v); }
                assert!(S2_2::new(&c[..]).get_f31() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[24..29], 2, 34);
            assert!(s.get_raw_f34() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 30) as i64) >> 30;
            assert!(s.get_f34() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_2::new(&mut c[..]); m.set_f34(v); }
            assert!(updated::<false>(&b[24..29], &c[24..29], 2, 34, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 24, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_2::new(&mut c[..]); m.set_raw_f34(r); }
            assert!(updated::<false>(&b[24..29], &c[24..29], 2, 34, r as u64) && others(&b, &c, 24, 29), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 33 && v as i64 <= (1u64 << 33) as i64 - 1 || 34 == 64 {
                let mut c = b;
                { let mut m = S2_2::new(&mut c[..]); m.set_f34(v); }
                assert!(S2_2::new(&c[..]).get_f34() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[29..34], 2, 35);
            assert!(s.get_raw_f35() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 29) as i64) >> 29;
            assert!(s.get_f35() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_2::new(&mut c[..]); m.set_f35(v); }
            assert!(updated::<false>(&b[29..34], &c[29..34], 2, 35, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 29, 34), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_2::new(&mut c[..]); m.set_raw_f35(r); }
            assert!(updated::<false>(&b[29..34], &c[29..34], 2, 35, r as u64) && others(&b, &c, 29, 34), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 34 && v as i64 <= (1u64 << 34) as i64 - 1 || 35 == 64 {
                let mut c = b;
                { let mut m = S2_2::new(&mut c[..]); m.set_f35(v); }
                assert!(S2_2::new(&c[..]).get_f35() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o2_g3() {
        use crate::ilet::*;
        const N: usize = 44;
        assert!(<S2_3<()> as FixedSize>::SIZE == N && SIZE_S2_3 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S2_3::new(&b[..]);
        {
            let raw = field::<false>(&b[0..5], 2, 36);
            assert!(s.get_raw_f36() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 28) as i64) >> 28;
            assert!(s.get_f36() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_3::new(&mut c[..]); m.set_f36(v); }
            assert!(updated::<false>(&b[0..5], &c[0..5], 2, 36, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_3::new(&mut c[..]); m.set_raw_f36(r); }
            assert!(updated::<false>(&b[0..5], &c[0..5], 2, 36, r as u64) && others(&b, &c, 0, 5), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 35 && v as i64 <= (1u64 << 35) as i64 - 1 || 36 == 64 {
                let mut c = b;
                { let mut m = S2_3::new(&mut c[..]); m.set_f36(v); }
                assert!(S2_3::new(&c[..]).get_f36() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[5..10], 2, 37);
            assert!(s.get_raw_f37() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 27) as i64) >> 27;
            assert!(s.get_f37() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_3::new(&mut c[..]); m.set_f37(v); }
            assert!(updated::<false>(&b[5..10], &c[5..10], 2, 37, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_3::new(&mut c[..]); m.set_raw_f37(r); }
            assert!(updated::<false>(&b[5..10], &c[5..10], 2, 37, r as u64) && others(&b, &c, 5, 10), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 36 && v as i64 <= (1u64 << 36) as i64 - 1 || 37 == 64 {
                let mut c = b;
                { let mut m = S2_3::new(&mut c[..]); m.set_f37(v); }
                assert!(S2_3::new(&c[..]).get_f37() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[10..15], 2, 38);
            assert!(s.get_raw_f38() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 26) as i64) >> 26;
            assert!(s.get_f38() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_3::new(&mut c[..]); m.set_f38(v); }
            assert!(updated::<false>(&b[10..15], &c[10..15], 2, 38, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 15), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_3::new(&mut c[..]); m.set_raw_f38(r); }
            assert!(updated::<false>(&b[10..15], &c[10..15], 2, 38, r as u64) && others(&b, &c, 10, 15), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 37 && v as i64 <= (1u64 << 37) as i64 - 1 || 38 == 64 {
                let mut c = b;
                { let mut m = S2_3::new(&mut c[..]); m.set_f38(v); }
                assert!(S2_3::new(&c[..]).get_f38() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[15..21], 2, 39);
            assert!(s.get_raw_f39() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 25) as i64) >> 25;
            assert!(s.get_f39() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_3::new(&mut c[..]); m.set_f39(v); }
            assert!(updated::<false>(&b[15..21], &c[15..21], 2, 39, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 15, 21), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_3::new(&mut c[..]); m.set_raw_f39(r); }
            assert!(updated::<false>(&b[15..21], &c[15..21], 2, 39, r as u64) && others(&b, &c, 15, 21), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 38 && v as i64 <= (1u64 << 38) as i64 - 1 || 39 == 64 {
                let mut c = b;
                { let mut m = S2_3::new(&mut c[..]); m.set_f39(v); }
                assert!(S2_3::new(&c[..]).get_f39() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[20..26], 2, 41);
            assert!(s.get_raw_f41() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 23) as i64) >> 23;
            assert!(s.get_f41() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_3::new(&mut c[..]); m.set_f41(v); }
            assert!(updated::<false>(&b[20..26], &c[20..26], 2, 41, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 26), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_3::new(&mut c[..]); m.set_raw_f41(r); }
            assert!(updated::<false>(&b[20..26], &c[20..26], 2, 41, r as u64) && others(&b, &c, 20, 26), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 40 && v as i64 <= (1u64 << 40) as i64 - 1 || 41 == 64 {
                let mut c = b;
                { let mut m = S2_3::new(&mut c[..]); m.set_f41(v); }
                assert!(S2_3::new(&c[..]).get_f41() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[26..32], 2, 42);
            assert!(s.get_raw_f42() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 22) as i64) >> 22;
            assert!(s.get_f42() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_3::new(&mut c[..]); m.set_f42(v); }
            assert!(updated::<false>(&b[26..32], &c[26..32], 2, 42, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 26, 32), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_3::new(&mut c[..]); m.set_raw_f42(r); }
            assert!(updated::<false>(&b[26..32], &c[26..32], 2, 42, r as u64) && others(&b, &c, 26, 32), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 41 && v as i64 <= (1u64 << 41) as i64 - 1 || 42 == 64 {
                let mut c = b;
                { let mut m = S2_3::new(&mut c[..]); m.set_f42(v); }
                assert!(S2_3::new(&c[..]).get_f42() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[32..38], 2, 43);
            assert!(s.get_raw_f43() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 21) as i64) >> 21;
            assert!(s.get_f43() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_3::new(&mut c[..]); m.set_f43(v); }
            assert!(updated::<false>(&b[32..38], &c[32..38], 2, 43, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 32, 38), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_3::new(&mut c[..]); m.set_raw_f43(r); }
            assert!(updated::<false>(&b[32..38], &c[32..38], 2, 43, r as u64) && others(&b, &c, 32, 38), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 42 && v as i64 <= (1u64 << 42) as i64 - 1 || 43 == 64 {
                let mut c = b;
                { let mut m = S2_3::new(&mut c[..]); m.set_f43(v); }
                assert!(S2_3::new(&c[..]).get_f43() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[38..44], 2, 44);
            assert!(s.get_raw_f44() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 20) as i64) >> 20;
            assert!(s.get_f44() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_3::new(&mut c[..]); m.set_f44(v); }
            assert!(updated::<false>(&b[38..44], &c[38..44], 2, 44, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 38, 44), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_3::new(&mut c[..]); m.set_raw_f44(r); }
            assert!(updated::<false>(&b[38..44], &c[38..44], 2, 44, r as u64) && others(&b, &c, 38, 44), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 43 && v as i64 <= (1u64 << 43) as i64 - 1 || 44 == 64 {
                let mut c = b;
                { let mut m = S2_3::new(&mut c[..]); m.set_f44(v); }
                assert!(S2_3::new(&c[..]).get_f44() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o2_g4() {
        use crate::ilet::*;
        const N: usize = 52;
        assert!(<S2_4<()> as FixedSize>::SIZE == N && SIZE_S2_4 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S2_4::new(&b[..]);
        {
            let raw = field::<false>(&b[0..6], 2, 45);
            assert!(s.get_raw_f45() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 19) as i64) >> 19;
            assert!(s.get_f45() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_4::new(&mut c[..]); m.set_f45(v); }
            assert!(updated::<false>(&b[0..6], &c[0..6], 2, 45, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_4::new(&mut c[..]); m.set_raw_f45(r); }
            assert!(updated::<false>(&b[0..6], &c[0..6], 2, 45, r as u64) && others(&b, &c, 0, 6), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 44 && v as i64 <= (1u64 << 44) as i64 - 1 || 45 == 64 {
                let mut c = b;
                { let mut m = S2_4::new(&mut c[..]); m.set_f45(v); }
                assert!(S2_4::new(&c[..]).get_f45() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[6..12], 2, 46);
            assert!(s.get_raw_f46() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 18) as i64) >> 18;
            assert!(s.get_f46() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_4::new(&mut c[..]); m.set_f46(v); }
            assert!(updated::<false>(&b[6..12], &c[6..12], 2, 46, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 12), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_4::new(&mut c[..]); m.set_raw_f46(r); }
            assert!(updated::<false>(&b[6..12], &c[6..12], 2, 46, r as u64) && others(&b, &c, 6, 12), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 45 && v as i64 <= (1u64 << 45) as i64 - 1 || 46 == 64 {
                let mut c = b;
                { let mut m = S2_4::new(&mut c[..]); m.set_f46(v); }
                assert!(S2_4::new(&c[..]).get_f46() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[12..19], 2, 47);
            assert!(s.get_raw_f47() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 17) as i64) >> 17;
            assert!(s.get_f47() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_4::new(&mut c[..]); m.set_f47(v); }
            assert!(updated::<false>(&b[12..19], &c[12..19], 2, 47, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_4::new(&mut c[..]); m.set_raw_f47(r); }
            assert!(updated::<false>(&b[12..19], &c[12..19], 2, 47, r as u64) && others(&b, &c, 12, 19), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 46 && v as i64 <= (1u64 << 46) as i64 - 1 || 47 == 64 {
                let mut c = b;
                { let mut m = S2_4::new(&mut c[..]); m.set_f47(v); }
                assert!(S2_4::new(&c[..]).get_f47() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[18..25], 2, 48);
            assert!(s.get_raw_f48() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 16) as i64) >> 16;
            assert!(s.get_f48() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_4::new(&mut c[..]); m.set_f48(v); }
            assert!(updated::<false>(&b[18..25], &c[18..25], 2, 48, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 18, 25), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_4::new(&mut c[..]); m.set_raw_f48(r); }
            assert!(updated::<false>(&b[18..25], &c[18..25], 2, 48, r as u64) && others(&b, &c, 18, 25), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 47 && v as i64 <= (1u64 << 47) as i64 - 1 || 48 == 64 {
                let mut c = b;
                { let mut m = S2_4::new(&mut c[..]); m.set_f48(v); }
                assert!(S2_4::new(&c[..]).get_f48() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[24..31], 2, 49);
            assert!(s.get_raw_f49() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 15) as i64) >> 15;
            assert!(s.get_f49() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_4::new(&mut c[..]); m.set_f49(v); }
            assert!(updated::<false>(&b[24..31], &c[24..31], 2, 49, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 24, 31), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_4::new(&mut c[..]); m.set_raw_f49(r); }
            assert!(updated::<false>(&b[24..31], &c[24..31], 2, 49, r as u64) && others(&b, &c, 24, 31), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 48 && v as i64 <= (1u64 << 48) as i64 - 1 || 49 == 64 {
                let mut c = b;
                { let mut m = S2_4::new(&mut c[..]); m.set_f49(v); }
                assert!(S2_4::new(&c[..]).get_f49() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[31..38], 2, 50);
            assert!(s.get_raw_f50() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 14) as i64) >> 14;
            assert!(s.get_f50() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_4::new(&mut c[..]); m.set_f50(v); }
            assert!(updated::<false>(&b[31..38], &c[31..38], 2, 50, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 31, 38), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_4::new(&mut c[..]); m.set_raw_f50(r); }
            assert!(updated::<false>(&b[31..38], &c[31..38], 2, 50, r as u64) && others(&b, &c, 31, 38), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 49 && v as i64 <= (1u64 << 49) as i64 - 1 || 50 == 64 {
                let mut c = b;
                { let mut m = S2_4::new(&mut c[..]); m.set_f50(v); }
                assert!(S2_4::new(&c[..]).get_f50() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[38..45], 2, 51);
            assert!(s.get_raw_f51() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 13) as i64) >> 13;
            assert!(s.get_f51() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_4::new(&mut c[..]); m.set_f51(v); }
            assert!(updated::<false>(&b[38..45], &c[38..45], 2, 51, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 38, 45), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_4::new(&mut c[..]); m.set_raw_f51(r); }
            assert!(updated::<false>(&b[38..45], &c[38..45], 2, 51, r as u64) && others(&b, &c, 38, 45), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 50 && v as i64 <= (1u64 << 50) as i64 - 1 || 51 == 64 {
                let mut c = b;
                { let mut m = S2_4::new(&mut c[..]); m.set_f51(v); }
                assert!(S2_4::new(&c[..]).get_f51() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[45..52], 2, 52);
            assert!(s.get_raw_f52() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 12) as i64) >> 12;
            assert!(s.get_f52() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_4::new(&mut c[..]); m.set_f52(v); }
            assert!(updated::<false>(&b[45..52], &c[45..52], 2, 52, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 45, 52), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_4::new(&mut c[..]); m.set_raw_f52(r); }
            assert!(updated::<false>(&b[45..52], &c[45..52], 2, 52, r as u64) && others(&b, &c, 45, 52), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 51 && v as i64 <= (1u64 << 51) as i64 - 1 || 52 == 64 {
                let mut c = b;
                { let mut m = S2_4::new(&mut c[..]); m.set_f52(v); }
                assert!(S2_4::new(&c[..]).get_f52() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o2_g5() {
        use crate::ilet::*;
        const N: usize = 61;
        assert!(<S2_5<()> as FixedSize>::SIZE == N && SIZE_S2_5 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S2_5::new(&b[..]);
        {
            let raw = field::<false>(&b[0..7], 2, 53);
            assert!(s.get_raw_f53() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 11) as i64) >> 11;
            assert!(s.get_f53() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_5::new(&mut c[..]); m.set_f53(v); }
            assert!(updated::<false>(&b[0..7], &c[0..7], 2, 53, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_5::new(&mut c[..]); m.set_raw_f53(r); }
            assert!(updated::<false>(&b[0..7], &c[0..7], 2, 53, r as u64) && others(&b, &c, 0, 7), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 52 && v as i64 <= (1u64 << 52) as i64 - 1 || 53 == 64 {
                let mut c = b;
                { let mut m = S2_5::new(&mut c[..]); m.set_f53(v); }
                assert!(S2_5::new(&c[..]).get_f53() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[7..14], 2, 54);
            assert!(s.get_raw_f54() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 10) as i64) >> 10;
            assert!(s.get_f54() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_5::new(&mut c[..]); m.set_f54(v); }
            assert!(updated::<false>(&b[7..14], &c[7..14], 2, 54, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 14), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_5::new(&mut c[..]); m.set_raw_f54(r); }
            assert!(updated::<false>(&b[7..14], &c[7..14], 2, 54, r as u64) && others(&b, &c, 7, 14), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 53 && v as i64 <= (1u64 << 53) as i64 - 1 || 54 == 64 {
                let mut c = b;
                { let mut m = S2_5::new(&mut c[..]); m.set_f54(v); }
                assert!(S2_5::new(&c[..]).get_f54() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[14..22], 2, 55);
            assert!(s.get_raw_f55() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 9) as i64) >> 9;
            assert!(s.get_f55() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_5::new(&mut c[..]); m.set_f55(v); }
            assert!(updated::<false>(&b[14..22], &c[14..22], 2, 55, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 14, 22), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_5::new(&mut c[..]); m.set_raw_f55(r); }
            assert!(updated::<false>(&b[14..22], &c[14..22], 2, 55, r as u64) && others(&b, &c, 14, 22), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 54 && v as i64 <= (1u64 << 54) as i64 - 1 || 55 == 64 {
                let mut c = b;
                { let mut m = S2_5::new(&mut c[..]); m.set_f55(v); }
                assert!(S2_5::new(&c[..]).get_f55() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[21..29], 2, 58);
            assert!(s.get_raw_f58() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 6) as i64) >> 6;
            assert!(s.get_f58() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_5::new(&mut c[..]); m.set_f58(v); }
            assert!(updated::<false>(&b[21..29], &c[21..29], 2, 58, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 21, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_5::new(&mut c[..]); m.set_raw_f58(r); }
            assert!(updated::<false>(&b[21..29], &c[21..29], 2, 58, r as u64) && others(&b, &c, 21, 29), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 57 && v as i64 <= (1u64 << 57) as i64 - 1 || 58 == 64 {
                let mut c = b;
                { let mut m = S2_5::new(&mut c[..]); m.set_f58(v); }
                assert!(S2_5::new(&c[..]).get_f58() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[29..37], 2, 59);
            assert!(s.get_raw_f59() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 5) as i64) >> 5;
            assert!(s.get_f59() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_5::new(&mut c[..]); m.set_f59(v); }
            assert!(updated::<false>(&b[29..37], &c[29..37], 2, 59, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 29, 37), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_5::new(&mut c[..]); m.set_raw_f59(r); }
            assert!(updated::<false>(&b[29..37], &c[29..37], 2, 59, r as u64) && others(&b, &c, 29, 37), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 58 && v as i64 <= (1u64 << 58) as i64 - 1 || 59 == 64 {
                let mut c = b;
                { let mut m = S2_5::new(&mut c[..]); m.set_f59(v); }
                assert!(S2_5::new(&c[..]).get_f59() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[37..45], 2, 60);
            assert!(s.get_raw_f60() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 4) as i64) >> 4;
            assert!(s.get_f60() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_5::new(&mut c[..]); m.set_f60(v); }
            assert!(updated::<false>(&b[37..45], &c[37..45], 2, 60, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 37, 45), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_5::new(&mut c[..]); m.set_raw_f60(r); }
            assert!(updated::<false>(&b[37..45], &c[37..45], 2, 60, r as u64) && others(&b, &c, 37, 45), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 59 && v as i64 <= (1u64 << 59) as i64 - 1 || 60 == 64 {
                let mut c = b;
                { let mut m = S2_5::new(&mut c[..]); m.set_f60(v); }
                assert!(S2_5::new(&c[..]).get_f60() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[45..53], 2, 61);
            assert!(s.get_raw_f61() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 3) as i64) >> 3;
            assert!(s.get_f61() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_5::new(&mut c[..]); m.set_f61(v); }
            assert!(updated::<false>(&b[45..53], &c[45..53], 2, 61, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 45, 53), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_5::new(&mut c[..]); m.set_raw_f61(r); }
            assert!(updated::<false>(&b[45..53], &c[45..53], 2, 61, r as u64) && others(&b, &c, 45, 53), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 60 && v as i64 <= (1u64 << 60) as i64 - 1 || 61 == 64 {
                let mut c = b;
                { let mut m = S2_5::new(&mut c[..]); m.set_f61(v); }
                assert!(S2_5::new(&c[..]).get_f61() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[53..61], 2, 62);
            assert!(s.get_raw_f62() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 2) as i64) >> 2;
            assert!(s.get_f62() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_5::new(&mut c[..]); m.set_f62(v); }
            assert!(updated::<false>(&b[53..61], &c[53..61], 2, 62, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 53, 61), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_5::new(&mut c[..]); m.set_raw_f62(r); }
            assert!(updated::<false>(&b[53..61], &c[53..61], 2, 62, r as u64) && others(&b, &c, 53, 61), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 61 && v as i64 <= (1u64 << 61) as i64 - 1 || 62 == 64 {
                let mut c = b;
                { let mut m = S2_5::new(&mut c[..]); m.set_f62(v); }
                assert!(S2_5::new(&c[..]).get_f62() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o3_g0() {
        use crate::ilet::*;
        const N: usize = 12;
        assert!(<S3_0<()> as FixedSize>::SIZE == N && SIZE_S3_0 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S3_0::new(&b[..]);
        {
            let raw = field::<false>(&b[0..1], 3, 2);
            assert!(s.get_raw_f2() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 62) as i64) >> 62;
            assert!(s.get_f2() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_0::new(&mut c[..]); m.set_f2(v); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 3, 2, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_0::new(&mut c[..]); m.set_raw_f2(r); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 3, 2, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 1 && v as i64 <= (1u64 << 1) as i64 - 1 || 2 == 64 {
                let mut c = b;
                { let mut m = S3_0::new(&mut c[..]); m.set_f2(v); }
                assert!(S3_0::new(&c[..]).get_f2() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[1..2], 3, 4);
            assert!(s.get_raw_f4() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 60) as i64) >> 60;
            assert!(s.get_f4() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_0::new(&mut c[..]); m.set_f4(v); }
            assert!(updated::<false>(&b[1..2], &c[1..2], 3, 4, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_0::new(&mut c[..]); m.set_raw_f4(r); }
            assert!(updated::<false>(&b[1..2], &c[1..2], 3, 4, r as u64) && others(&b, &c, 1, 2), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 3 && v as i64 <= (1u64 << 3) as i64 - 1 || 4 == 64 {
                let mut c = b;
                { let mut m = S3_0::new(&mut c[..]); m.set_f4(v); }
                assert!(S3_0::new(&c[..]).get_f4() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[2..3], 3, 5);
            assert!(s.get_raw_f5() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 59) as i64) >> 59;
            assert!(s.get_f5() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_0::new(&mut c[..]); m.set_f5(v); }
            assert!(updated::<false>(&b[2..3], &c[2..3], 3, 5, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_0::new(&mut c[..]); m.set_raw_f5(r); }
            assert!(updated::<false>(&b[2..3], &c[2..3], 3, 5, r as u64) && others(&b, &c, 2, 3), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 4 && v as i64 <= (1u64 << 4) as i64 - 1 || 5 == 64 {
                let mut c = b;
                { let mut m = S3_0::new(&mut c[..]); m.set_f5(v); }
                assert!(S3_0::new(&c[..]).get_f5() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[3..5], 3, 6);
            assert!(s.get_raw_f6() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 58) as i64) >> 58;
            assert!(s.get_f6() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_0::new(&mut c[..]); m.set_f6(v); }
            assert!(updated::<false>(&b[3..5], &c[3..5], 3, 6, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_0::new(&mut c[..]); m.set_raw_f6(r); }
            assert!(updated::<false>(&b[3..5], &c[3..5], 3, 6, r as u64) && others(&b, &c, 3, 5), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 5 && v as i64 <= (1u64 << 5) as i64 - 1 || 6 == 64 {
                let mut c = b;
                { let mut m = S3_0::new(&mut c[..]); m.set_f6(v); }
                assert!(S3_0::new(&c[..]).get_f6() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[4..6], 3, 10);
            assert!(s.get_raw_f10() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 54) as i64) >> 54;
            assert!(s.get_f10() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_0::new(&mut c[..]); m.set_f10(v); }
            assert!(updated::<false>(&b[4..6], &c[4..6], 3, 10, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_0::new(&mut c[..]); m.set_raw_f10(r); }
            assert!(updated::<false>(&b[4..6], &c[4..6], 3, 10, r as u64) && others(&b, &c, 4, 6), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 9 && v as i64 <= (1u64 << 9) as i64 - 1 || 10 == 64 {
                let mut c = b;
                { let mut m = S3_0::new(&mut c[..]); m.set_f10(v); }
                assert!(S3_0::new(&c[..]).get_f10() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[6..8], 3, 11);
            assert!(s.get_raw_f11() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 53) as i64) >> 53;
            assert!(s.get_f11() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_0::new(&mut c[..]); m.set_f11(v); }
            assert!(updated::<false>(&b[6..8], &c[6..8], 3, 11, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_0::new(&mut c[..]); m.set_raw_f11(r); }
            assert!(updated::<false>(&b[6..8], &c[6..8], 3, 11, r as u64) && others(&b, &c, 6, 8), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 10 && v as i64 <= (1u64 << 10) as i64 - 1 || 11 == 64 {
                let mut c = b;
                { let mut m = S3_0::new(&mut c[..]); m.set_f11(v); }
                assert!(S3_0::new(&c[..]).get_f11() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[8..10], 3, 12);
            assert!(s.get_raw_f12() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 52) as i64) >> 52;
            assert!(s.get_f12() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_0::new(&mut c[..]); m.set_f12(v); }
            assert!(updated::<false>(&b[8..10], &c[8..10], 3, 12, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 8, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_0::new(&mut c[..]); m.set_raw_f12(r); }
            assert!(updated::<false>(&b[8..10], &c[8..10], 3, 12, r as u64) && others(&b, &c, 8, 10), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 11 && v as i64 <= (1u64 << 11) as i64 - 1 || 12 == 64 {
                let mut c = b;
                { let mut m = S3_0::new(&mut c[..]); m.set_f12(v); }
                assert!(S3_0::new(&c[..]).get_f12() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[10..12], 3, 13);
            assert!(s.get_raw_f13() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 51) as i64) >> 51;
            assert!(s.get_f13() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_0::new(&mut c[..]); m.set_f13(v); }
            assert!(updated::<false>(&b[10..12], &c[10..12], 3, 13, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 12), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_0::new(&mut c[..]); m.set_raw_f13(r); }
            assert!(updated::<false>(&b[10..12], &c[10..12], 3, 13, r as u64) && others(&b, &c, 10, 12), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 12 && v as i64 <= (1u64 << 12) as i64 - 1 || 13 == 64 {
                let mut c = b;
                { let mut m = S3_0::new(&mut c[..]); m.set_f13(v); }
                assert!(S3_0::new(&c[..]).get_f13() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o3_g1() {
        use crate::ilet::*;
        const N: usize = 23;
        assert!(<S3_1<()> as FixedSize>::SIZE == N && SIZE_S3_1 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S3_1::new(&b[..]);
        {
            let raw = field::<false>(&b[0..3], 3, 14);
            assert!(s.get_raw_f14() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 50) as i64) >> 50;
            assert!(s.get_f14() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_1::new(&mut c[..]); m.set_f14(v); }
            assert!(updated::<false>(&b[0..3], &c[0..3], 3, 14, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_1::new(&mut c[..]); m.set_raw_f14(r); }
            assert!(updated::<false>(&b[0..3], &c[0..3], 3, 14, r as u64) && others(&b, &c, 0, 3), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 13 && v as i64 <= (1u64 << 13) as i64 - 1 || 14 == 64 {
                let mut c = b;
                { let mut m = S3_1::new(&mut c[..]); m.set_f14(v); }
                assert!(S3_1::new(&c[..]).get_f14() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[2..5], 3, 15);
            assert!(s.get_raw_f15() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 49) as i64) >> 49;
            assert!(s.get_f15() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_1::new(&mut c[..]); m.set_f15(v); }
            assert!(updated::<false>(&b[2..5], &c[2..5], 3, 15, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_1::new(&mut c[..]); m.set_raw_f15(r); }
            assert!(updated::<false>(&b[2..5], &c[2..5], 3, 15, r as u64) && others(&b, &c, 2, 5), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 14 && v as i64 <= (1u64 << 14) as i64 - 1 || 15 == 64 {
                let mut c = b;
                { let mut m = S3_1::new(&mut c[..]); m.set_f15(v); }
                assert!(S3_1::new(&c[..]).get_f15() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[4..7], 3, 18);
            assert!(s.get_raw_f18() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 46) as i64) >> 46;
            assert!(s.get_f18() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_1::new(&mut c[..]); m.set_f18(v); }
            assert!(updated::<false>(&b[4..7], &c[4..7], 3, 18, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_1::new(&mut c[..]); m.set_raw_f18(r); }
            assert!(updated::<false>(&b[4..7], &c[4..7], 3, 18, r as u64) && others(&b, &c, 4, 7), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 17 && v as i64 <= (1u64 << 17) as i64 - 1 || 18 == 64 {
                let mut c = b;
                { let mut m = S3_1::new(&mut c[..]); m.set_f18(v); }
                assert!(S3_1::new(&c[..]).get_f18() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[7..10], 3, 19);
            assert!(s.get_raw_f19() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 45) as i64) >> 45;
            assert!(s.get_f19() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_1::new(&mut c[..]); m.set_f19(v); }
            assert!(updated::<false>(&b[7..10], &c[7..10], 3, 19, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_1::new(&mut c[..]); m.set_raw_f19(r); }
            assert!(updated::<false>(&b[7..10], &c[7..10], 3, 19, r as u64) && others(&b, &c, 7, 10), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 18 && v as i64 <= (1u64 << 18) as i64 - 1 || 19 == 64 {
                let mut c = b;
                { let mut m = S3_1::new(&mut c[..]); m.set_f19(v); }
                assert!(S3_1::new(&c[..]).get_f19() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[10..13], 3, 20);
            assert!(s.get_raw_f20() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 44) as i64) >> 44;
            assert!(s.get_f20() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_1::new(&mut c[..]); m.set_f20(v); }
            assert!(updated::<false>(&b[10..13], &c[10..13], 3, 20, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_1::new(&mut c[..]); m.set_raw_f20(r); }
            assert!(updated::<false>(&b[10..13], &c[10..13], 3, 20, r as u64) && others(&b, &c, 10, 13), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 19 && v as i64 <= (1u64 << 19) as i64 - 1 || 20 == 64 {
                let mut c = b;
                { let mut m = S3_1::new(&mut c[..]); m.set_f20(v); }
                assert!(S3_1::new(&c[..]).get_f20() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[13..16], 3, 21);
            assert!(s.get_raw_f21() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 43) as i64) >> 43;
            assert!(s.get_f21() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_1::new(&mut c[..]); m.set_f21(v); }
            assert!(updated::<false>(&b[13..16], &c[13..16], 3, 21, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 13, 16), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_1::new(&mut c[..]); m.set_raw_f21(r); }
            assert!(updated::<false>(&b[13..16], &c[13..16], 3, 21, r as u64) && others(&b, &c, 13, 16), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 20 && v as i64 <= (1u64 << 20) as i64 - 1 || 21 == 64 {
                let mut c = b;
                { let mut m = S3_1::new(&mut c[..]); m.set_f21(v); }
                assert!(S3_1::new(&c[..]).get_f21() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[16..20], 3, 22);
            assert!(s.get_raw_f22() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 42) as i64) >> 42;
            assert!(s.get_f22() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_1::new(&mut c[..]); m.set_f22(v); }
            assert!(updated::<false>(&b[16..20], &c[16..20], 3, 22, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_1::new(&mut c[..]); m.set_raw_f22(r); }
            assert!(updated::<false>(&b[16..20], &c[16..20], 3, 22, r as u64) && others(&b, &c, 16, 20), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 21 && v as i64 <= (1u64 << 21) as i64 - 1 || 22 == 64 {
                let mut c = b;
                { let mut m = S3_1::new(&mut c[..]); m.set_f22(v); }
                assert!(S3_1::new(&c[..]).get_f22() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[19..23], 3, 23);
            assert!(s.get_raw_f23() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 41) as i64) >> 41;
            assert!(s.get_f23() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_1::new(&mut c[..]); m.set_f23(v); }
            assert!(updated::<false>(&b[19..23], &c[19..23], 3, 23, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 19, 23), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_1::new(&mut c[..]); m.set_raw_f23(r); }
            assert!(updated::<false>(&b[19..23], &c[19..23], 3, 23, r as u64) && others(&b, &c, 19, 23), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 22 && v as i64 <= (1u64 << 22) as i64 - 1 || 23 == 64 {
                let mut c = b;
                { let mut m = S3_1::new(&mut c[..]); m.set_f23(v); }
                assert!(S3_1::new(&c[..]).get_f23() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o3_g2() {
        use crate::ilet::*;
        const N: usize = 34;
        assert!(<S3_2<()> as FixedSize>::SIZE == N && SIZE_S3_2 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S3_2::new(&b[..]);
        {
            let raw = field::<false>(&b[0..4], 3, 26);
            assert!(s.get_raw_f26() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 38) as i64) >> 38;
            assert!(s.get_f26() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_2::new(&mut c[..]); m.set_f26(v); }
            assert!(updated::<false>(&b[0..4], &c[0..4], 3, 26, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_2::new(&mut c[..]); m.set_raw_f26(r); }
            assert!(updated::<false>(&b[0..4], &c[0..4], 3, 26, r as u64) && others(&b, &c, 0, 4), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 25 && v as i64 <= (1u64 << 25) as i64 - 1 || 26 == 64 {
                let mut c = b;
                { let mut m = S3_2::new(&mut c[..]); m.set_f26(v); }
                assert!(S3_2::new(&c[..]).get_f26() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[4..8], 3, 27);
            assert!(s.get_raw_f27() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 37) as i64) >> 37;
            assert!(s.get_f27() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_2::new(&mut c[..]); m.set_f27(v); }
            assert!(updated::<false>(&b[4..8], &c[4..8], 3, 27, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_2::new(&mut c[..]); m.set_raw_f27(r); }
            assert!(updated::<false>(&b[4..8], &c[4..8], 3, 27, r as u64) && others(&b, &c, 4, 8), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 26 && v as i64 <= (1u64 << 26) as i64 - 1 || 27 == 64 {
                let mut c = b;
                { let mut m = S3_2::new(&mut c[..]); m.set_f27(v); }
                assert!(S3_2::new(&c[..]).get_f27() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[8..12], 3, 28);
            assert!(s.get_raw_f28() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 36) as i64) >> 36;
            assert!(s.get_f28() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_2::new(&mut c[..]); m.set_f28(v); }
            assert!(updated::<false>(&b[8..12], &c[8..12], 3, 28, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 8, 12), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_2::new(&mut c[..]); m.set_raw_f28(r); }
            assert!(updated::<false>(&b[8..12], &c[8..12], 3, 28, r as u64) && others(&b, &c, 8, 12), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 27 && v as i64 <= (1u64 << 27) as i64 - 1 || 28 == 64 {
                let mut c = b;
                { let mut m = S3_2::new(&mut c[..]); m.set_f28(v); }
                assert!(S3_2::new(&c[..]).get_f28() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[12..16], 3, 29);
            assert!(s.get_raw_f29() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 35) as i64) >> 35;
            assert!(s.get_f29() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_2::new(&mut c[..]); m.set_f29(v); }
            assert!(updated::<false>(&b[12..16], &c[12..16], 3, 29, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 16), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_2::new(&mut c[..]); m.set_raw_f29(r); }
            assert!(updated::<false>(&b[12..16], &c[12..16], 3, 29, r as u64) && others(&b, &c, 12, 16), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 28 && v as i64 <= (1u64 << 28) as i64 - 1 || 29 == 64 {
                let mut c = b;
                { let mut m = S3_2::new(&mut c[..]); m.set_f29(v); }
                assert!(S3_2::new(&c[..]).get_f29() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[16..21], 3, 30);
            assert!(s.get_raw_f30() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 34) as i64) >> 34;
            assert!(s.get_f30() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_2::new(&mut c[..]); m.set_f30(v); }
            assert!(updated::<false>(&b[16..21], &c[16..21], 3, 30, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 21), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_2::new(&mut c[..]); m.set_raw_f30(r); }
            assert!(updated::<false>(&b[16..21], &c[16..21], 3, 30, r as u64) && others(&b, &c, 16, 21), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 29 && v as i64 <= (1u64 << 29) as i64 - 1 || 30 == 64 {
                let mut c = b;
                { let mut m = S3_2::new(&mut c[..]); m.set_f30(v); }
                assert!(S3_2::new(&c[..]).get_f30() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[20..25], 3, 31);
            assert!(s.get_raw_f31() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 33) as i64) >> 33;
            assert!(s.get_f31() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_2::new(&mut c[..]); m.set_f31(v); }
            assert!(updated::<false>(&b[20..25], &c[20..25], 3, 31, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 25), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_2::new(&mut c[..]); m.set_raw_f31(r); }
            assert!(updated::<false>(&b[20..25], &c[20..25], 3, 31, r as u64) && others(&b, &c, 20, 25), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 30 && v as i64 <= (1u64 << 30) as i64 - 1 || 31 == 64 {
                let mut c = b;
                { let mut m = S3_2::new(&mut c[..]); m.set_f31(v); }
                assert!(S3_2::new(&c[..]).get_f31() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[24..29], 3, 34);
            assert!(s.get_raw_f34() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 30) as i64) >> 30;
            assert!(s.get_f34() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_2::new(&mut c[..]); m.set_f34(v); }
            assert!(updated::<false>(&b[24..29], &c[24..29], 3, 34, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 24, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_2::new(&mut c[..]); m.set_raw_f34(r); }
            assert!(updated::<false>(&b[24..29], &c[24..29], 3, 34, r as u64) && others(&b, &c, 24, 29), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 33 && v as i64 <= (1u64 << 33) as i64 - 1 || 34 == 64 {
                let mut c = b;
                { let mut m = S3_2::new(&mut c[..]); m.set_f34(v); }
                assert!(S3_2::new(&c[..]).get_f34() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[29..34], 3, 35);
            assert!(s.get_raw_f35() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 29) as i64) >> 29;
            assert!(s.get_f35() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_2::new(&mut c[..]); m.set_f35(v); }
            assert!(updated::<false>(&b[29..34], &c[29..34], 3, 35, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 29, 34), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_2::new(&mut c[..]); m.set_raw_f35(r); }
            assert!(updated::<false>(&b[29..34], &c[29..34], 3, 35, r as u64) && others(&b, &c, 29, 34), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 34 && v as i64 <= (1u64 << 34) as i64 - 1 || 35 == 64 {
                let mut c = b;
                { let mut m = S3_2::new(&mut c[..]); m.set_f35(v); }
                assert!(S3_2::new(&c[..]).get_f35() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o3_g3() {
        use crate::ilet::*;
        const N: usize = 44;
        assert!(<S3_3<()> as FixedSize>::SIZE == N && SIZE_S3_3 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S3_3::new(&b[..]);
        {
            let raw = field::<false>(&b[0..5], 3, 36);
            assert!(s.get_raw_f36() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 28) as i64) >> 28;
            assert!(s.get_f36() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_3::new(&mut c[..]); m.set_f36(v); }
            assert!(updated::<false>(&b[0..5], &c[0..5], 3, 36, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_3::new(&mut c[..]); m.set_raw_f36(r); }
            assert!(updated::<false>(&b[0..5], &c[0..5], 3, 36, r as u64) && others(&b, &c, 0, 5), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 35 && v as i64 <= (1u64 << 35) as i64 - 1 || 36 == 64 {
                let mut c = b;
                { let mut m = S3_3::new(&mut c[..]); m.set_f36(v); }
                assert!(S3_3::new(&c[..]).get_f36() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[5..10], 3, 37);
            assert!(s.get_raw_f37() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 27) as i64) >> 27;
            assert!(s.get_f37() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_3::new(&mut c[..]); m.set_f37(v); }
            assert!(updated::<false>(&b[5..10], &c[5..10], 3, 37, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_3::new(&mut c[..]); m.set_raw_f37(r); }
            assert!(updated::<false>(&b[5..10], &c[5..10], 3, 37, r as u64) && others(&b, &c, 5, 10), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 36 && v as i64 <= (1u64 << 36) as i64 - 1 || 37 == 64 {
                let mut c = b;
                { let mut m = S3_3::new(&mut c[..]); m.set_f37(v); }
                assert!(S3_3::new(&c[..]).get_f37() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[10..16], 3, 38);
            assert!(s.get_raw_f38() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 26) as i64) >> 26;
            assert!(s.get_f38() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_3::new(&mut c[..]); m.set_f38(v); }
            assert!(updated::<false>(&b[10..16], &c[10..16], 3, 38, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 16), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_3::new(&mut c[..]); m.set_raw_f38(r); }
            assert!(updated::<false>(&b[10..16], &c[10..16], 3, 38, r as u64) && others(&b, &c, 10, 16), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 37 && v as i64 <= (1u64 << 37) as i64 - 1 || 38 == 64 {
                let mut c = b;
                { let mut m = S3_3::new(&mut c[..]); m.set_f38(v); }
                assert!(S3_3::new(&c[..]).get_f38() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[15..21], 3, 39);
            assert!(s.get_raw_f39() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 25) as i64) >> 25;
            assert!(s.get_f39() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_3::new(&mut c[..]); m.set_f39(v); }
            assert!(updated::<false>(&b[15..21], &c[15..21], 3, 39, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 15, 21), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_3::new(&mut c[..]); m.set_raw_f39(r); }
            assert!(updated::<false>(&b[15..21], &c[15..21], 3, 39, r as u64) && others(&b, &c, 15, 21), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 38 && v as i64 <= (1u64 << 38) as i64 - 1 || 39 == 64 {
                let mut c = b;
                { let mut m = S3_3::new(&mut c[..]); m.set_f39(v); }
                assert!(S3_3::new(&c[..]).get_f39() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[20..26], 3, 41);
            assert!(s.get_raw_f41() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 23) as i64) >> 23;
            assert!(s.get_f41() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_3::new(&mut c[..]); m.set_f41(v); }
            assert!(updated::<false>(&b[20..26], &c[20..26], 3, 41, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 26), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_3::new(&mut c[..]); m.set_raw_f41(r); }
            assert!(updated::<false>(&b[20..26], &c[20..26], 3, 41, r as u64) && others(&b, &c, 20, 26), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 40 && v as i64 <= (1u64 << 40) as i64 - 1 || 41 == 64 {
                let mut c = b;
                { let mut m = S3_3::new(&mut c[..]); m.set_f41(v); }
                assert!(S3_3::new(&c[..]).get_f41() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[26..32], 3, 42);
            assert!(s.get_raw_f42() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 22) as i64) >> 22;
            assert!(s.get_f42() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_3::new(&mut c[..]); m.set_f42(v); }
            assert!(updated::<false>(&b[26..32], &c[26..32], 3, 42, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 26, 32), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_3::new(&mut c[..]); m.set_raw_f42(r); }
            assert!(updated::<false>(&b[26..32], &c[26..32], 3, 42, r as u64) && others(&b, &c, 26, 32), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 41 && v as i64 <= (1u64 << 41) as i64 - 1 || 42 == 64 {
                let mut c = b;
                { let mut m = S3_3::new(&mut c[..]); m.set_f42(v); }
                assert!(S3_3::new(&c[..]).get_f42() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[32..38], 3, 43);
            assert!(s.get_raw_f43() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 21) as i64) >> 21;
            assert!(s.get_f43() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_3::new(&mut c[..]); m.set_f43(v); }
            assert!(updated::<false>(&b[32..38], &c[32..38], 3, 43, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 32, 38), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_3::new(&mut c[..]); m.set_raw_f43(r); }
            assert!(updated::<false>(&b[32..38], &c[32..38], 3, 43, r as u64) && others(&b, &c, 32, 38), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 42 && v as i64 <= (1u64 << 42) as i64 - 1 || 43 == 64 {
                let mut c = b;
                { let mut m = S3_3::new(&mut c[..]); m.set_f43(v); }
                assert!(S3_3::new(&c[..]).get_f43() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[38..44], 3, 44);
            assert!(s.get_raw_f44() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 20) as i64) >> 20;
            assert!(s.get_f44() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_3::new(&mut c[..]); m.set_f44(v); }
            assert!(updated::<false>(&b[38..44], &c[38..44], 3, 44, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 38, 44), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_3::new(&mut c[..]); m.set_raw_f44(r); }
            assert!(updated::<false>(&b[38..44], &c[38..44], 3, 44, r as u64) && others(&b, &c, 38, 44), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 43 && v as i64 <= (1u64 << 43) as i64 - 1 || 44 == 64 {
                let mut c = b;
                { let mut m = S3_3::new(&mut c[..]); m.set_f44(v); }
                assert!(S3_3::new(&c[..]).get_f44() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o3_g4() {
        use crate::ilet::*;
        const N: usize = 52;
        assert!(<S3_4<()> as FixedSize>::SIZE == N && SIZE_S3_4 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S3_4::new(&b[..]);
        {
            let raw = field::<false>(&b[0..6], 3, 45);
            assert!(s.get_raw_f45() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 19) as i64) >> 19;
            assert!(s.get_f45() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_4::new(&mut c[..]); m.set_f45(v); }
            assert!(updated::<false>(&b[0..6], &c[0..6], 3, 45, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_4::new(&mut c[..]); m.set_raw_f45(r); }
            assert!(updated::<false>(&b[0..6], &c[0..6], 3, 45, r as u64) && others(&b, &c, 0, 6), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 44 && v as i64 <= (1u64 << 44) as i64 - 1 || 45 == 64 {
                let mut c = b;
                { let mut m = S3_4::new(&mut c[..]); m.set_f45(v); }
                assert!(S3_4::new(&c[..]).get_f45() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[6..13], 3, 46);
            assert!(s.get_raw_f46() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 18) as i64) >> 18;
            assert!(s.get_f46() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_4::new(&mut c[..]); m.set_f46(v); }
            assert!(updated::<false>(&b[6..13], &c[6..13], 3, 46, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_4::new(&mut c[..]); m.set_raw_f46(r); }
            assert!(updated::<false>(&b[6..13], &c[6..13], 3, 46, r as u64) && others(&b, &c, 6, 13), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 45 && v as i64 <= (1u64 << 45) as i64 - 1 || 46 == 64 {
                let mut c = b;
                { let mut m = S3_4::new(&mut c[..]); m.set_f46(v); }
                assert!(S3_4::new(&c[..]).get_f46() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[12..19], 3, 47);
            assert!(s.get_raw_f47() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 17) as i64) >> 17;
            assert!(s.get_f47() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_4::new(&mut c[..]); m.set_f47(v); }
            assert!(updated::<false>(&b[12..19], &c[12..19], 3, 47, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_4::new(&mut c[..]); m.set_raw_f47(r); }
            assert!(updated::<false>(&b[12..19], &c[12..19], 3, 47, r as u64) && others(&b, &c, 12, 19), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 46 && v as i64 <= (1u64 << 46) as i64 - 1 || 47 == 64 {
                let mut c = b;
                { let mut m = S3_4::new(&mut c[..]); m.set_f47(v); }
                assert!(S3_4::new(&c[..]).get_f47() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[18..25], 3, 48);
            assert!(s.get_raw_f48() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 16) as i64) >> 16;
            assert!(s.get_f48() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_4::new(&mut c[..]); m.set_f48(v); }
            assert!(updated::<false>(&b[18..25], &c[18..25], 3, 48, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 18, 25), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_4::new(&mut c[..]); m.set_raw_f48(r); }
            assert!(updated::<false>(&b[18..25], &c[18..25], 3, 48, r as u64) && others(&b, &c, 18, 25), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 47 && v as i64 <= (1u64 << 47) as i64 - 1 || 48 == 64 {
                let mut c = b;
                { let mut m = S3_4::new(&mut c[..]); m.set_f48(v); }
                assert!(S3_4::new(&c[..]).get_f48() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[24..31], 3, 49);
            assert!(s.get_raw_f49() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 15) as i64) >> 15;
            assert!(s.get_f49() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_4::new(&mut c[..]); m.set_f49(v); }
            assert!(updated::<false>(&b[24..31], &c[24..31], 3, 49, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 24, 31), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_4::new(&mut c[..]); m.set_raw_f49(r); }
            assert!(updated::<false>(&b[24..31], &c[24..31], 3, 49, r as u64) && others(&b, &c, 24, 31), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 48 && v as i64 <= (1u64 << 48) as i64 - 1 || 49 == 64 {
                let mut c = b;
                { let mut m = S3_4::new(&mut c[..]); m.set_f49(v); }
                assert!(S3_4::new(&c[..]).get_f49() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[31..38], 3, 50);
            assert!(s.get_raw_f50() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 14) as i64) >> 14;
            assert!(s.get_f50() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_4::new(&mut c[..]); m.set_f50(v); }
            assert!(updated::<false>(&b[31..38], &c[31..38], 3, 50, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 31, 38), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_4::new(&mut c[..]); m.set_raw_f50(r); }
            assert!(updated::<false>(&b[31..38], &c[31..38], 3, 50, r as u64) && others(&b, &c, 31, 38), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 49 && v as i64 <= (1u64 << 49) as i64 - 1 || 50 == 64 {
                let mut c = b;
                { let mut m = S3_4::new(&mut c[..]); m.set_f50(v); }
                assert!(S3_4::new(&c[..]).get_f50() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[38..45], 3, 51);
            assert!(s.get_raw_f51() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 13) as i64) >> 13;
            assert!(s.get_f51() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_4::new(&mut c[..]); m.set_f51(v); }
            assert!(updated::<false>(&b[38..45], &c[38..45], 3, 51, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 38, 45), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_4::new(&mut c[..]); m.set_raw_f51(r); }
            assert!(updated::<false>(&b[38..45], &c[38..45], 3, 51, r as u64) && others(&b, &c, 38, 45), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 50 && v as i64 <= (1u64 << 50) as i64 - 1 || 51 == 64 {
                let mut c = b;
                { let mut m = S3_4::new(&mut c[..]); m.set_f51(v); }
                assert!(S3_4::new(&c[..]).get_f51() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[45..52], 3, 52);
            assert!(s.get_raw_f52() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 12) as i64) >> 12;
            assert!(s.get_f52() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_4::new(&mut c[..]); m.set_f52(v); }
            assert!(updated::<false>(&b[45..52], &c[45..52], 3, 52, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 45, 52), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_4::new(&mut c[..]); m.set_raw_f52(r); }
            assert!(updated::<false>(&b[45..52], &c[45..52], 3, 52, r as u64) && others(&b, &c, 45, 52), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 51 && v as i64 <= (1u64 << 51) as i64 - 1 || 52 == 64 {
                let mut c = b;
                { let mut m = S3_4::new(&mut c[..]); m.set_f52(v); }
                assert!(S3_4::new(&c[..]).get_f52() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o3_g5() {
        use crate::ilet::*;
        const N: usize = 62;
        assert!(<S3_5<()> as FixedSize>::SIZE == N && SIZE_S3_5 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S3_5::new(&b[..]);
        {
            let raw = field::<false>(&b[0..7], 3, 53);
            assert!(s.get_raw_f53() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 11) as i64) >> 11;
            assert!(s.get_f53() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_5::new(&mut c[..]); m.set_f53(v); }
            assert!(updated::<false>(&b[0..7], &c[0..7], 3, 53, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_5::new(&mut c[..]); m.set_raw_f53(r); }
            assert!(updated::<false>(&b[0..7], &c[0..7], 3, 53, r as u64) && others(&b, &c, 0, 7), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 52 && v as i64 <= (1u64 << 52) as i64 - 1 || 53 == 64 {
                let mut c = b;
                { let mut m = S3_5::new(&mut c[..]); m.set_f53(v); }
                assert!(S3_5::new(&c[..]).get_f53() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[7..15], 3, 54);
            assert!(s.get_raw_f54() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 10) as i64) >> 10;
            assert!(s.get_f54() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_5::new(&mut c[..]); m.set_f54(v); }
            assert!(updated::<false>(&b[7..15], &c[7..15], 3, 54, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 15), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_5::new(&mut c[..]); m.set_raw_f54(r); }
            assert!(updated::<false>(&b[7..15], &c[7..15], 3, 54, r as u64) && others(&b, &c, 7, 15), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 53 && v as i64 <= (1u64 << 53) as i64 - 1 || 54 == 64 {
                let mut c = b;
                { let mut m = S3_5::new(&mut c[..]); m.set_f54(v); }
                assert!(S3_5::new(&c[..]).get_f54() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[14..22], 3, 55);
            assert!(s.get_raw_f55() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 9) as i64) >> 9;
            assert!(s.get_f55() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_5::new(&mut c[..]); m.set_f55(v); }
            assert!(updated::<false>(&b[14..22], &c[14..22], 3, 55, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 14, 22), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_5::new(&mut c[..]); m.set_raw_f55(r); }
            assert!(updated::<false>(&b[14..22], &c[14..22], 3, 55, r as u64) && others(&b, &c, 14, 22), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 54 && v as i64 <= (1u64 << 54) as i64 - 1 || 55 == 64 {
                let mut c = b;
                { let mut m = S3_5::new(&mut c[..]); m.set_f55(v); }
                assert!(S3_5::new(&c[..]).get_f55() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[21..29], 3, 58);
            assert!(s.get_raw_f58() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 6) as i64) >> 6;
            assert!(s.get_f58() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_5::new(&mut c[..]); m.set_f58(v); }
            assert!(updated::<false>(&b[21..29], &c[21..29], 3, 58, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 21, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_5::new(&mut c[..]); m.set_raw_f58(r); }
            assert!(updated::<false>(&b[21..29], &c[21..29], 3, 58, r as u64) && others(&b, &c, 21, 29), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 57 && v as i64 <= (1u64 << 57) as i64 - 1 || 58 == 64 {
                let mut c = b;
                { let mut m = S3_5::new(&mut c[..]); m.set_f58(v); }
                assert!(S3_5::new(&c[..]).get_f58() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[29..37], 3, 59);
            assert!(s.get_raw_f59() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 5) as i64) >> 5;
            assert!(s.get_f59() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_5::new(&mut c[..]); m.set_f59(v); }
            assert!(updated::<false>(&b[29..37], &c[29..37], 3, 59, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 29, 37), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_5::new(&mut c[..]); m.set_raw_f59(r); }
            assert!(updated::<false>(&b[29..37], &c[29..37], 3, 59, r as u64) && others(&b, &c, 29, 37), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 58 && v as i64 <= (1u64 << 58) as i64 - 1 || 59 == 64 {
                let mut c = b;
                { let mut m = S3_5::new(&mut c[..]); m.set_f59(v); }
                assert!(S3_5::new(&c[..]).get_f59() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[37..45], 3, 60);
            assert!(s.get_raw_f60() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 4) as i64) >> 4;
            assert!(s.get_f60() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_5::new(&mut c[..]); m.set_f60(v); }
            assert!(updated::<false>(&b[37..45], &c[37..45], 3, 60, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 37, 45), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_5::new(&mut c[..]); m.set_raw_f60(r); }
            assert!(updated::<false>(&b[37..45], &c[37..45], 3, 60, r as u64) && others(&b, &c, 37, 45), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 59 && v as i64 <= (1u64 << 59) as i64 - 1 || 60 == 64 {
                let mut c = b;
                { let mut m = S3_5::new(&mut c[..]); m.set_f60(v); }
                assert!(S3_5::new(&c[..]).get_f60() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[45..53], 3, 61);
            assert!(s.get_raw_f61() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 3) as i64) >> 3;
            assert!(s.get_f61() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_5::new(&mut c[..]); m.set_f61(v); }
            assert!(updated::<false>(&b[45..53], &c[45..53], 3, 61, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 45, 53), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_5::new(&mut c[..]); m.set_raw_f61(r); }
            assert!(updated::<false>(&b[45..53], &c[45..53], 3, 61, r as u64) && others(&b, &c, 45, 53), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 60 && v as i64 <= (1u64 << 60) as i64 - 1 || 61 == 64 {
                let mut c = b;
                { let mut m = S3_5::new(&mut c[..]); m.set_f61(v); }
                assert!(S3_5::new(&c[..]).get_f61() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[53..62], 3, 62);
            assert!(s.get_raw_f62() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 2) as i64) >> 2;
            assert!(s.get_f62() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_5::new(&mut c[..]); m.set_f62(v); }
            assert!(updated::<false>(&b[53..62], &c[53..62], 3, 62, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 53, 62), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_5::new(&mut c[..]); m.set_raw_f62(r); }
            assert!(updated::<false>(&b[53..62], &c[53..62], 3, 62, r as u64) && others(&b, &c, 53, 62), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 61 && v as i64 <= (1u64 << 61) as i64 - 1 || 62 == 64 {
                let mut c = b;
                { let mut m = S3_5::new(&mut c[..]); m.set_f62(v); }
                assert!(S3_5::new(&c[..]).get_f62() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o4_g0() {
        use crate::ilet::*;
        const N: usize = 13;
        assert!(<S4_0<()> as FixedSize>::SIZE == N && SIZE_S4_0 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S4_0::new(&b[..]);
        {
            let raw = field::<false>(&b[0..1], 4, 2);
            assert!(s.get_raw_f2() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 62) as i64) >> 62;
            assert!(s.get_f2() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_0::new(&mut c[..]); m.set_f2(v); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 4, 2, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_0::new(&mut c[..]); m.set_raw_f2(r); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 4, 2, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 1 && v as i64 <= (1u64 << 1) as i64 - 1 || 2 == 64 {
                let mut c = b;
                { let mut m = S4_0::new(&mut c[..]); m.set_f2(v); }
                assert!(S4_0::new(&c[..]).get_f2() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[1..2], 4, 4);
            assert!(s.get_raw_f4() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 60) as i64) >> 60;
            assert!(s.get_f4() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_0::new(&mut c[..]); m.set_f4(v); }
            assert!(updated::<false>(&b[1..2], &c[1..2], 4, 4, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_0::new(&mut c[..]); m.set_raw_f4(r); }
            assert!(updated::<false>(&b[1..2], &c[1..2], 4, 4, r as u64) && others(&b, &c, 1, 2), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 3 && v as i64 <= (1u64 << 3) as i64 - 1 || 4 == 64 {
                let mut c = b;
                { let mut m = S4_0::new(&mut c[..]); m.set_f4(v); }
                assert!(S4_0::new(&c[..]).get_f4() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[2..4], 4, 5);
            assert!(s.get_raw_f5() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 59) as i64) >> 59;
            assert!(s.get_f5() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_0::new(&mut c[..]); m.set_f5(v); }
            assert!(updated::<false>(&b[2..4], &c[2..4], 4, 5, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_0::new(&mut c[..]); m.set_raw_f5(r); }
            assert!(updated::<false>(&b[2..4], &c[2..4], 4, 5, r as u64) && others(&b, &c, 2, 4), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 4 && v as i64 <= (1u64 << 4) as i64 - 1 || 5 == 64 {
                let mut c = b;
                { let mut m = S4_0::new(&mut c[..]); m.set_f5(v); }
                assert!(S4_0::new(&c[..]).get_f5() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[3..5], 4, 6);
            assert!(s.get_raw_f6() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 58) as i64) >> 58;
            assert!(s.get_f6() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_0::new(&mut c[..]); m.set_f6(v); }
            assert!(updated::<false>(&b[3..5], &c[3..5], 4, 6, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_0::new(&mut c[..]); m.set_raw_f6(r); }
            assert!(updated::<false>(&b[3..5], &c[3..5], 4, 6, r as u64) && others(&b, &c, 3, 5), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 5 && v as i64 <= (1u64 << 5) as i64 - 1 || 6 == 64 {
                let mut c = b;
                { let mut m = S4_0::new(&mut c[..]); m.set_f6(v); }
                assert!(S4_0::new(&c[..]).get_f6() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[4..6], 4, 10);
            assert!(s.get_raw_f10() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 54) as i64) >> 54;
            assert!(s.get_f10() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_0::new(&mut c[..]); m.set_f10(v); }
            assert!(updated::<false>(&b[4..6], &c[4..6], 4, 10, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_0::new(&mut c[..]); m.set_raw_f10(r); }
            assert!(updated::<false>(&b[4..6], &c[4..6], 4, 10, r as u64) && others(&b, &c, 4, 6), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 9 && v as i64 <= (1u64 << 9) as i64 - 1 || 10 == 64 {
                let mut c = b;
                { let mut m = S4_0::new(&mut c[..]); m.set_f10(v); }
                assert!(S4_0::new(&c[..]).get_f10() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[6..8], 4, 11);
            assert!(s.get_raw_f11() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 53) as i64) >> 53;
            assert!(s.get_f11() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_0::new(&mut c[..]); m.set_f11(v); }
            assert!(updated::<false>(&b[6..8], &c[6..8], 4, 11, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_0::new(&mut c[..]); m.set_raw_f11(r); }
            assert!(updated::<false>(&b[6..8], &c[6..8], 4, 11, r as u64) && others(&b, &c, 6, 8), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 10 && v as i64 <= (1u64 << 10) as i64 - 1 || 11 == 64 {
                let mut c = b;
                { let mut m = S4_0::new(&mut c[..]); m.set_f11(v); }
                assert!(S4_0::new(&c[..]).get_f11() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[8..10], 4, 12);
            assert!(s.get_raw_f12() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 52) as i64) >> 52;
            assert!(s.get_f12() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_0::new(&mut c[..]); m.set_f12(v); }
            assert!(updated::<false>(&b[8..10], &c[8..10], 4, 12, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 8, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_0::new(&mut c[..]); m.set_raw_f12(r); }
            assert!(updated::<false>(&b[8..10], &c[8..10], 4, 12, r as u64) && others(&b, &c, 8, 10), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 11 && v as i64 <= (1u64 << 11) as i64 - 1 || 12 == 64 {
                let mut c = b;
                { let mut m = S4_0::new(&mut c[..]); m.set_f12(v); }
                assert!(S4_0::new(&c[..]).get_f12() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[10..13], 4, 13);
            assert!(s.get_raw_f13() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 51) as i64) >> 51;
            assert!(s.get_f13() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_0::new(&mut c[..]); m.set_f13(v); }
            assert!(updated::<false>(&b[10..13], &c[10..13], 4, 13, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_0::new(&mut c[..]); m.set_raw_f13(r); }
            assert!(updated::<false>(&b[10..13], &c[10..13], 4, 13, r as u64) && others(&b, &c, 10, 13), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 12 && v as i64 <= (1u64 << 12) as i64 - 1 || 13 == 64 {
                let mut c = b;
                { let mut m = S4_0::new(&mut c[..]); m.set_f13(v); }
                assert!(S4_0::new(&c[..]).get_f13() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o4_g1() {
        use crate::ilet::*;
        const N: usize = 23;
        assert!(<S4_1<()> as FixedSize>::SIZE == N && SIZE_S4_1 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S4_1::new(&b[..]);
        {
            let raw = field::<false>(&b[0..3], 4, 14);
            assert!(s.get_raw_f14() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 50) as i64) >> 50;
            assert!(s.get_f14() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_1::new(&mut c[..]); m.set_f14(v); }
            assert!(updated::<false>(&b[0..3], &c[0..3], 4, 14, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_1::new(&mut c[..]); m.set_raw_f14(r); }
            assert!(updated::<false>(&b[0..3], &c[0..3], 4, 14, r as u64) && others(&b, &c, 0, 3), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 13 && v as i64 <= (1u64 << 13) as i64 - 1 || 14 == 64 {
                let mut c = b;
                { let mut m = S4_1::new(&mut c[..]); m.set_f14(v); }
                assert!(S4_1::new(&c[..]).get_f14() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[2..5], 4, 15);
            assert!(s.get_raw_f15() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 49) as i64) >> 49;
            assert!(s.get_f15() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_1::new(&mut c[..]); m.set_f15(v); }
            assert!(updated::<false>(&b[2..5], &c[2..5], 4, 15, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_1::new(&mut c[..]); m.set_raw_f15(r); }
            assert!(updated::<false>(&b[2..5], &c[2..5], 4, 15, r as u64) && others(&b, &c, 2, 5), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 14 && v as i64 <= (1u64 << 14) as i64 - 1 || 15 == 64 {
                let mut c = b;
                { let mut m = S4_1::new(&mut c[..]); m.set_f15(v); }
                assert!(S4_1::new(&c[..]).get_f15() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[4..7], 4, 18);
            assert!(s.get_raw_f18() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 46) as i64) >> 46;
            assert!(s.get_f18() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_1::new(&mut c[..]); m.set_f18(v); }
            assert!(updated::<false>(&b[4..7], &c[4..7], 4, 18, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_1::new(&mut c[..]); m.set_raw_f18(r); }
            assert!(updated::<false>(&b[4..7], &c[4..7], 4, 18, r as u64) && others(&b, &c, 4, 7), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 17 && v as i64 <= (1u64 << 17) as i64 - 1 || 18 == 64 {
                let mut c = b;
                { let mut m = S4_1::new(&mut c[..]); m.set_f18(v); }
                assert!(S4_1::new(&c[..]).get_f18() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[7..10], 4, 19);
            assert!(s.get_raw_f19() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 45) as i64) >> 45;
            assert!(s.get_f19() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_1::new(&mut c[..]); m.set_f19(v); }
            assert!(updated::<false>(&b[7..10], &c[7..10], 4, 19, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_1::new(&mut c[..]); m.set_raw_f19(r); }
            assert!(updated::<false>(&b[7..10], &c[7..10], 4, 19, r as u64) && others(&b, &c, 7, 10), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 18 && v as i64 <= (1u64 << 18) as i64 - 1 || 19 == 64 {
                let mut c = b;
                { let mut m = S4_1::new(&mut c[..]); m.set_f19(v); }
                assert!(S4_1::new(&c[..]).get_f19() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[10..13], 4, 20);
            assert!(s.get_raw_f20() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 44) as i64) >> 44;
            assert!(s.get_f20() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_1::new(&mut c[..]); m.set_f20(v); }
            assert!(updated::<false>(&b[10..13], &c[10..13], 4, 20, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_1::new(&mut c[..]); m.set_raw_f20(r); }
            assert!(updated::<false>(&b[10..13], &c[10..13], 4, 20, r as u64) && others(&b, &c, 10, 13), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 19 && v as i64 <= (1u64 << 19) as i64 - 1 || 20 == 64 {
                let mut c = b;
                { let mut m = S4_1::new(&mut c[..]); m.set_f20(v); }
                assert!(S4_1::new(&c[..]).get_f20() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[13..17], 4, 21);
            assert!(s.get_raw_f21() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 43) as i64) >> 43;
            assert!(s.get_f21() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_1::new(&mut c[..]); m.set_f21(v); }
            assert!(updated::<false>(&b[13..17], &c[13..17], 4, 21, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 13, 17), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_1::new(&mut c[..]); m.set_raw_f21(r); }
            assert!(updated::<false>(&b[13..17], &c[13..17], 4, 21, r as u64) && others(&b, &c, 13, 17), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 20 && v as i64 <= (1u64 << 20) as i64 - 1 || 21 == 64 {
                let mut c = b;
                { let mut m = S4_1::new(&mut c[..]); m.set_f21(v); }
                assert!(S4_1::new(&c[..]).get_f21() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[16..20], 4, 22);
            assert!(s.get_raw_f22() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 42) as i64) >> 42;
            assert!(s.get_f22() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_1::new(&mut c[..]); m.set_f22(v); }
            assert!(updated::<false>(&b[16..20], &c[16..20], 4, 22, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_1::new(&mut c[..]); m.set_raw_f22(r); }
            assert!(updated::<false>(&b[16..20], &c[16..20], 4, 22, r as u64) && others(&b, &c, 16, 20), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 21 && v as i64 <= (1u64 << 21) as i64 - 1 || 22 == 64 {
                let mut c = b;
                { let mut m = S4_1::new(&mut c[..]); m.set_f22(v); }
                assert!(S4_1::new(&c[..]).get_f22() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[19..23], 4, 23);
            assert!(s.get_raw_f23() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 41) as i64) >> 41;
            assert!(s.get_f23() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_1::new(&mut c[..]); m.set_f23(v); }
            assert!(updated::<false>(&b[19..23], &c[19..23], 4, 23, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 19, 23), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_1::new(&mut c[..]); m.set_raw_f23(r); }
            assert!(updated::<false>(&b[19..23], &c[19..23], 4, 23, r as u64) && others(&b, &c, 19, 23), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 22 && v as i64 <= (1u64 << 22) as i64 - 1 || 23 == 64 {
                let mut c = b;
                { let mut m = S4_1::new(&mut c[..]); m.set_f23(v); }
                assert!(S4_1::new(&c[..]).get_f23() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o4_g2() {
        use crate::ilet::*;
        const N: usize = 34;
        assert!(<S4_2<()> as FixedSize>::SIZE == N && SIZE_S4_2 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S4_2::new(&b[..]);
        {
            let raw = field::<false>(&b[0..4], 4, 26);
            assert!(s.get_raw_f26() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 38) as i64) >> 38;
            assert!(s.get_f26() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_2::new(&mut c[..]); m.set_f26(v); }
            assert!(updated::<false>(&b[0..4], &c[0..4], 4, 26, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_2::new(&mut c[..]); m.set_raw_f26(r); }
            assert!(updated::<false>(&b[0..4], &c[0..4], 4, 26, r as u64) && others(&b, &c, 0, 4), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 25 && v as i64 <= (1u64 << 25) as i64 - 1 || 26 == 64 {
                let mut c = b;
                { let mut m = S4_2::new(&mut c[..]); m.set_f26(v); }
                assert!(S4_2::new(&c[..]).get_f26() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[4..8], 4, 27);
            assert!(s.get_raw_f27() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 37) as i64) >> 37;
            assert!(s.get_f27() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_2::new(&mut c[..]); m.set_f27(v); }
            assert!(updated::<false>(&b[4..8], &c[4..8], 4, 27, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_2::new(&mut c[..]); m.set_raw_f27(r); }
            assert!(updated::<false>(&b[4..8], &c[4..8], 4, 27, r as u64) && others(&b, &c, 4, 8), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 26 && v as i64 <= (1u64 << 26) as i64 - 1 || 27 == 64 {
                let mut c = b;
                { let mut m = S4_2::new(&mut c[..]); m.set_f27(v); }
                assert!(S4_2::new(&c[..]).get_f27() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[8..12], 4, 28);
            assert!(s.get_raw_f28() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 36) as i64) >> 36;
            assert!(s.get_f28() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_2::new(&mut c[..]); m.set_f28(v); }
            assert!(updated::<false>(&b[8..12], &c[8..12], 4, 28, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 8, 12), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_2::new(&mut c[..]); m.set_raw_f28(r); }
            assert!(updated::<false>(&b[8..12], &c[8..12], 4, 28, r as u64) && others(&b, &c, 8, 12), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 27 && v as i64 <= (1u64 << 27) as i64 - 1 || 28 == 64 {
                let mut c = b;
                { let mut m = S4_2::new(&mut c[..]); m.set_f28(v); }
                assert!(S4_2::new(&c[..]).get_f28() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[12..17], 4, 29);
            assert!(s.get_raw_f29() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 35) as i64) >> 35;
            assert!(s.get_f29() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_2::new(&mut c[..]); m.set_f29(v); }
            assert!(updated::<false>(&b[12..17], &c[12..17], 4, 29, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 17), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_2::new(&mut c[..]); m.set_raw_f29(r); }
            assert!(updated::<false>(&b[12..17], &c[12..17], 4, 29, r as u64) && others(&b, &c, 12, 17), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 28 && v as i64 <= (1u64 << 28) as i64 - 1 || 29 == 64 {
                let mut c = b;
                { let mut m = S4_2::new(&mut c[..]); m.set_f29(v); }
                assert!(S4_2::new(&c[..]).get_f29() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[16..21], 4, 30);
            assert!(s.get_raw_f30() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 34) as i64) >> 34;
            assert!(s.get_f30() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_2::new(&mut c[..]); m.set_f30(v); }
            assert!(updated::<false>(&b[16..21], &c[16..21], 4, 30, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 21), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_2::new(&mut c[..]); m.set_raw_f30(r); }
            assert!(updated::<false>(&b[16..21], &c[16..21], 4, 30, r as u64) && others(&b, &c, 16, 21), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 29 && v as i64 <= (1u64 << 29) as i64 - 1 || 30 == 64 {
                let mut c = b;
                { let mut m = S4_2::new(&mut c[..]); m.set_f30(v); }
                assert!(S4_2::new(&c[..]).get_f30() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[20..25], 4, 31);
            assert!(s.get_raw_f31() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 33) as i64) >> 33;
            assert!(s.get_f31() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_2::new(&mut c[..]); m.set_f31(v); }
            assert!(updated::<false>(&b[20..25], &c[20..25], 4, 31, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 25), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_2::new(&mut c[..]); m.set_raw_f31(r); }
            assert!(updated::<false>(&b[20..25], &c[20..25], 4, 31, r as u64) && others(&b, &c, 20, 25), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 30 && v as i64 <= (1u64 << 30) as i64 - 1 || 31 == 64 {
                let mut c = b;
                { let mut m = S4_2::new(&mut c[..]); m.set_f31(v); }
                assert!(S4_2::new(&c[..]).get_f31() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[24..29], 4, 34);
            assert!(s.get_raw_f34() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 30) as i64) >> 30;
            assert!(s.get_f34() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_2::new(&mut c[..]); m.set_f34(v); }
            assert!(updated::<false>(&b[24..29], &c[24..29], 4, 34, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 24, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_2::new(&mut c[..]); m.set_raw_f34(r); }
            assert!(updated::<false>(&b[24..29], &c[24..29], 4, 34, r as u64) && others(&b, &c, 24, 29), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 33 && v as i64 <= (1u64 << 33) as i64 - 1 || 34 == 64 {
                let mut c = b;
                { let mut m = S4_2::new(&mut c[..]); m.set_f34(v); }
                assert!(S4_2::new(&c[..]).get_f34() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[29..34], 4, 35);
            assert!(s.get_raw_f35() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 29) as i64) >> 29;
            assert!(s.get_f35() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_2::new(&mut c[..]); m.set_f35(v); }
            assert!(updated::<false>(&b[29..34], &c[29..34], 4, 35, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 29, 34), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_2::new(&mut c[..]); m.set_raw_f35(r); }
            assert!(updated::<false>(&b[29..34], &c[29..34], 4, 35, r as u64) && others(&b, &c, 29, 34), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 34 && v as i64 <= (1u64 << 34) as i64 - 1 || 35 == 64 {
                let mut c = b;
                { let mut m = S4_2::new(&mut c[..]); m.set_f35(v); }
                assert!(S4_2::new(&c[..]).get_f35() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o4_g3() {
        use crate::ilet::*;
        const N: usize = 44;
        assert!(<S4_3<()> as FixedSize>::SIZE == N && SIZE_S4_3 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S4_3::new(&b[..]);
        {
            let raw = field::<false>(&b[0..5], 4, 36);
            assert!(s.get_raw_f36() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 28) as i64) >> 28;
            assert!(s.get_f36() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_3::new(&mut c[..]); m.set_f36(v); }
            assert!(updated::<false>(&b[0..5], &c[0..5], 4, 36, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_3::new(&mut c[..]); m.set_raw_f36(r); }
            assert!(updated::<false>(&b[0..5], &c[0..5], 4, 36, r as u64) && others(&b, &c, 0, 5), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 35 && v as i64 <= (1u64 << 35) as i64 - 1 || 36 == 64 {
                let mut c = b;
                { let mut m = S4_3::new(&mut c[..]); m.set_f36(v); }
                assert!(S4_3::new(&c[..]).get_f36() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[5..11], 4, 37);
            assert!(s.get_raw_f37() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 27) as i64) >> 27;
            assert!(s.get_f37() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_3::new(&mut c[..]); m.set_f37(v); }
            assert!(updated::<false>(&b[5..11], &c[5..11], 4, 37, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 11), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_3::new(&mut c[..]); m.set_raw_f37(r); }
            assert!(updated::<false>(&b[5..11], &c[5..11], 4, 37, r as u64) && others(&b, &c, 5, 11), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 36 && v as i64 <= (1u64 << 36) as i64 - 1 || 37 == 64 {
                let mut c = b;
                { let mut m = S4_3::new(&mut c[..]); m.set_f37(v); }
                assert!(S4_3::new(&c[..]).get_f37() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[10..16], 4, 38);
            assert!(s.get_raw_f38() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 26) as i64) >> 26;
            assert!(s.get_f38() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_3::new(&mut c[..]); m.set_f38(v); }
            assert!(updated::<false>(&b[10..16], &c[10..16], 4, 38, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 16), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_3::new(&mut c[..]); m.set_raw_f38(r); }
            assert!(updated::<false>(&b[10..16], &c[10..16], 4, 38, r as u64) && others(&b, &c, 10, 16), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 37 && v as i64 <= (1u64 << 37) as i64 - 1 || 38 == 64 {
                let mut c = b;
                { let mut m = S4_3::new(&mut c[..]); m.set_f38(v); }
                assert!(S4_3::new(&c[..]).get_f38() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[15..21], 4, 39);
            assert!(s.get_raw_f39() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 25) as i64) >> 25;
            assert!(s.get_f39() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_3::new(&mut c[..]); m.set_f39(v); }
            assert!(updated::<false>(&b[15..21], &c[15..21], 4, 39, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 15, 21), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_3::new(&mut c[..]); m.set_raw_f39(r); }
            assert!(updated::<false>(&b[15..21], &c[15..21], 4, 39, r as u64) && others(&b, &c, 15, 21), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 38 && v as i64 <= (1u64 << 38) as i64 - 1 || 39 == 64 {
                let mut c = b;
                { let mut m = S4_3::new(&mut c[..]); m.set_f39(v); }
                assert!(S4_3::new(&c[..]).get_f39() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[20..26], 4, 41);
            assert!(s.get_raw_f41() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 23) as i64) >> 23;
            assert!(s.get_f41() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_3::new(&mut c[..]); m.set_f41(v); }
            assert!(updated::<false>(&b[20..26], &c[20..26], 4, 41, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 26), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_3::new(&mut c[..]); m.set_raw_f41(r); }
            assert!(updated::<false>(&b[20..26], &c[20..26], 4, 41, r as u64) && others(&b, &c, 20, 26), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 40 && v as i64 <= (1u64 << 40) as i64 - 1 || 41 == 64 {
                let mut c = b;
                { let mut m = S4_3::new(&mut c[..]); m.set_f41(v); }
                assert!(S4_3::new(&c[..]).get_f41() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[26..32], 4, 42);
            assert!(s.get_raw_f42() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 22) as i64) >> 22;
            assert!(s.get_f42() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_3::new(&mut c[..]); m.set_f42(v); }
            assert!(updated::<false>(&b[26..32], &c[26..32], 4, 42, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 26, 32), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_3::new(&mut c[..]); m.set_raw_f42(r); }
            assert!(updated::<false>(&b[26..32], &c[26..32], 4, 42, r as u64) && others(&b, &c, 26, 32), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 41 && v as i64 <= (1u64 << 41) as i64 - 1 || 42 == 64 {
                let mut c = b;
                { let mut m = S4_3::new(&mut c[..]); m.set_f42(v); }
                assert!(S4_3::new(&c[..]).get_f42() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[32..38], 4, 43);
            assert!(s.get_raw_f43() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 21) as i64) >> 21;
            assert!(s.get_f43() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_3::new(&mut c[..]); m.set_f43(v); }
            assert!(updated::<false>(&b[32..38], &c[32..38], 4, 43, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 32, 38), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_3::new(&mut c[..]); m.set_raw_f43(r); }
            assert!(updated::<false>(&b[32..38], &c[32..38], 4, 43, r as u64) && others(&b, &c, 32, 38), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 42 && v as i64 <= (1u64 << 42) as i64 - 1 || 43 == 64 {
                let mut c = b;
                { let mut m = S4_3::new(&mut c[..]); m.set_f43(v); }
                assert!(S4_3::new(&c[..]).get_f43() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[38..44], 4, 44);
            assert!(s.get_raw_f44() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 20) as i64) >> 20;
            assert!(s.get_f44() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_3::new(&mut c[..]); m.set_f44(v); }
            assert!(updated::<false>(&b[38..44], &c[38..44], 4, 44, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 38, 44), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_3::new(&mut c[..]); m.set_raw_f44(r); }
            assert!(updated::<false>(&b[38..44], &c[38..44], 4, 44, r as u64) && others(&b, &c, 38, 44), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 43 && v as i64 <= (1u64 << 43) as i64 - 1 || 44 == 64 {
                let mut c = b;
                { let mut m = S4_3::new(&mut c[..]); m.set_f44(v); }
                assert!(S4_3::new(&c[..]).get_f44() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o4_g4() {
        use crate::ilet::*;
        const N: usize = 52;
        assert!(<S4_4<()> as FixedSize>::SIZE == N && SIZE_S4_4 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S4_4::new(&b[..]);
        {
            let raw = field::<false>(&b[0..7], 4, 45);
            assert!(s.get_raw_f45() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 19) as i64) >> 19;
            assert!(s.get_f45() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_4::new(&mut c[..]); m.set_f45(v); }
            assert!(updated::<false>(&b[0..7], &c[0..7], 4, 45, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_4::new(&mut c[..]); m.set_raw_f45(r); }
            assert!(updated::<false>(&b[0..7], &c[0..7], 4, 45, r as u64) && others(&b, &c, 0, 7), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 44 && v as i64 <= (1u64 << 44) as i64 - 1 || 45 == 64 {
                let mut c = b;
                { let mut m = S4_4::new(&mut c[..]); m.set_f45(v); }
                assert!(S4_4::new(&c[..]).get_f45() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[6..13], 4, 46);
            assert!(s.get_raw_f46() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 18) as i64) >> 18;
            assert!(s.get_f46() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_4::new(&mut c[..]); m.set_f46(v); }
            assert!(updated::<false>(&b[6..13], &c[6..13], 4, 46, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_4::new(&mut c[..]); m.set_raw_f46(r); }
            assert!(updated::<false>(&b[6..13], &c[6..13], 4, 46, r as u64) && others(&b, &c, 6, 13), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 45 && v as i64 <= (1u64 << 45) as i64 - 1 || 46 == 64 {
                let mut c = b;
                { let mut m = S4_4::new(&mut c[..]); m.set_f46(v); }
                assert!(S4_4::new(&c[..]).get_f46() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[12..19], 4, 47);
            assert!(s.get_raw_f47() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 17) as i64) >> 17;
            assert!(s.get_f47() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_4::new(&mut c[..]); m.set_f47(v); }
            assert!(updated::<false>(&b[12..19], &c[12..19], 4, 47, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_4::new(&mut c[..]); m.set_raw_f47(r); }
            assert!(updated::<false>(&b[12..19], &c[12..19], 4, 47, r as u64) && others(&b, &c, 12, 19), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 46 && v as i64 <= (1u64 << 46) as i64 - 1 || 47 == 64 {
                let mut c = b;
                { let mut m = S4_4::new(&mut c[..]); m.set_f47(v); }
                assert!(S4_4::new(&c[..]).get_f47() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[18..25], 4, 48);
            assert!(s.get_raw_f48() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 16) as i64) >> 16;
            assert!(s.get_f48() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_4::new(&mut c[..]); m.set_f48(v); }
            assert!(updated::<false>(&b[18..25], &c[18..25], 4, 48, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 18, 25), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_4::new(&mut c[..]); m.set_raw_f48(r); }
            assert!(updated::<false>(&b[18..25], &c[18..25], 4, 48, r as u64) && others(&b, &c, 18, 25), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 47 && v as i64 <= (1u64 << 47) as i64 - 1 || 48 == 64 {
                let mut c = b;
                { let mut m = S4_4::new(&mut c[..]); m.set_f48(v); }
                assert!(S4_4::new(&c[..]).get_f48() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[24..31], 4, 49);
            assert!(s.get_raw_f49() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 15) as i64) >> 15;
            assert!(s.get_f49() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_4::new(&mut c[..]); m.set_f49(v); }
            assert!(updated::<false>(&b[24..31], &c[24..31], 4, 49, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 24, 31), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_4::new(&mut c[..]); m.set_raw_f49(r); }
            assert!(updated::<false>(&b[24..31], &c[24..31], 4, 49, r as u64) && others(&b, &c, 24, 31), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 48 && v as i64 <= (1u64 << 48) as i64 - 1 || 49 == 64 {
                let mut c = b;
                { let mut m = S4_4::new(&mut c[..]); m.set_f49(v); }
                assert!(S4_4::new(&c[..]).get_f49() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[31..38], 4, 50);
            assert!(s.get_raw_f50() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 14) as i64) >> 14;
            assert!(s.get_f50() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_4::new(&mut c[..]); m.set_f50(v); }
            assert!(updated::<false>(&b[31..38], &c[31..38], 4, 50, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 31, 38), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_4::new(&mut c[..]); m.set_raw_f50(r); }
            assert!(updated::<false>(&b[31..38], &c[31..38], 4, 50, r as u64) && others(&b, &c, 31, 38), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 49 && v as i64 <= (1u64 << 49) as i64 - 1 || 50 == 64 {
                let mut c = b;
                { let mut m = S4_4::new(&mut c[..]); m.set_f50(v); }
                assert!(S4_4::new(&c[..]).get_f50() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[38..45], 4, 51);
            assert!(s.get_raw_f51() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 13) as i64) >> 13;
            assert!(s.get_f51() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_4::new(&mut c[..]); m.set_f51(v); }
            assert!(updated::<false>(&b[38..45], &c[38..45], 4, 51, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 38, 45), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_4::new(&mut c[..]); m.set_raw_f51(r); }
            assert!(updated::<false>(&b[38..45], &c[38..45], 4, 51, r as u64) && others(&b, &c, 38, 45), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 50 && v as i64 <= (1u64 << 50) as i64 - 1 || 51 == 64 {
                let mut c = b;
                { let mut m = S4_4::new(&mut c[..]); m.set_f51(v); }
                assert!(S4_4::new(&c[..]).get_f51() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[45..52], 4, 52);
            assert!(s.get_raw_f52() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 12) as i64) >> 12;
            assert!(s.get_f52() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_4::new(&mut c[..]); m.set_f52(v); }
            assert!(updated::<false>(&b[45..52], &c[45..52], 4, 52, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 45, 52), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_4::new(&mut c[..]); m.set_raw_f52(r); }
            assert!(updated::<false>(&b[45..52], &c[45..52], 4, 52, r as u64) && others(&b, &c, 45, 52), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 51 && v as i64 <= (1u64 << 51) as i64 - 1 || 52 == 64 {
                let mut c = b;
                { let mut m = S4_4::new(&mut c[..]); m.set_f52(v); }
                assert!(S4_4::new(&c[..]).get_f52() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o4_g5() {
        use crate::ilet::*;
        const N: usize = 62;
        assert!(<S4_5<()> as FixedSize>::SIZE == N && SIZE_S4_5 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S4_5::new(&b[..]);
        {
            let raw = field::<false>(&b[0..8], 4, 53);
            assert!(s.get_raw_f53() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 11) as i64) >> 11;
            assert!(s.get_f53() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_5::new(&mut c[..]); m.set_f53(v); }
            assert!(updated::<false>(&b[0..8], &c[0..8], 4, 53, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_5::new(&mut c[..]); m.set_raw_f53(r); }
            assert!(updated::<false>(&b[0..8], &c[0..8], 4, 53, r as u64) && others(&b, &c, 0, 8), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 52 && v as i64 <= (1u64 << 52) as i64 - 1 || 53 == 64 {
                let mut c = b;
                { let mut m = S4_5::new(&mut c[..]); m.set_f53(v); }
                assert!(S4_5::new(&c[..]).get_f53() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[7..15], 4, 54);
            assert!(s.get_raw_f54() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 10) as i64) >> 10;
            assert!(s.get_f54() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_5::new(&mut c[..]); m.set_f54(v); }
            assert!(updated::<false>(&b[7..15], &c[7..15], 4, 54, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 15), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_5::new(&mut c[..]); m.set_raw_f54(r); }
            assert!(updated::<false>(&b[7..15], &c[7..15], 4, 54, r as u64) && others(&b, &c, 7, 15), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 53 && v as i64 <= (1u64 << 53) as i64 - 1 || 54 == 64 {
                let mut c = b;
                { let mut m = S4_5::new(&mut c[..]); m.set_f54(v); }
                assert!(S4_5::new(&c[..]).get_f54() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[14..22], 4, 55);
            assert!(s.get_raw_f55() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 9) as i64) >> 9;
            assert!(s.get_f55() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_5::new(&mut c[..]); m.set_f55(v); }
            assert!(updated::<false>(&b[14..22], &c[14..22], 4, 55, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 14, 22), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_5::new(&mut c[..]); m.set_raw_f55(r); }
            assert!(updated::<false>(&b[14..22], &c[14..22], 4, 55, r as u64) && others(&b, &c, 14, 22), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 54 && v as i64 <= (1u64 << 54) as i64 - 1 || 55 == 64 {
                let mut c = b;
                { let mut m = S4_5::new(&mut c[..]); m.set_f55(v); }
                assert!(S4_5::new(&c[..]).get_f55() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[21..29], 4, 58);
            assert!(s.get_raw_f58() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 6) as i64) >> 6;
            assert!(s.get_f58() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_5::new(&mut c[..]); m.set_f58(v); }
            assert!(updated::<false>(&b[21..29], &c[21..29], 4, 58, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 21, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_5::new(&mut c[..]); m.set_raw_f58(r); }
            assert!(updated::<false>(&b[21..29], &c[21..29], 4, 58, r as u64) && others(&b, &c, 21, 29), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 57 && v as i64 <= (1u64 << 57) as i64 - 1 || 58 == 64 {
                let mut c = b;
                { let mut m = S4_5::new(&mut c[..]); m.set_f58(v); }
                assert!(S4_5::new(&c[..]).get_f58() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[29..37], 4, 59);
            assert!(s.get_raw_f59() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 5) as i64) >> 5;
            assert!(s.get_f59() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_5::new(&mut c[..]); m.set_f59(v); }
            assert!(updated::<false>(&b[29..37], &c[29..37], 4, 59, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 29, 37), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_5::new(&mut c[..]); m.set_raw_f59(r); }
            assert!(updated::<false>(&b[29..37], &c[29..37], 4, 59, r as u64) && others(&b, &c, 29, 37), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 58 && v as i64 <= (1u64 << 58) as i64 - 1 || 59 == 64 {
                let mut c = b;
                { let mut m = S4_5::new(&mut c[..]); m.set_f59(v); }
                assert!(S4_5::new(&c[..]).get_f59() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[37..45], 4, 60);
            assert!(s.get_raw_f60() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 4) as i64) >> 4;
            assert!(s.get_f60() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_5::new(&mut c[..]); m.set_f60(v); }
            assert!(updated::<false>(&b[37..45], &c[37..45], 4, 60, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 37, 45), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_5::new(&mut c[..]); m.set_raw_f60(r); }
            assert!(updated::<false>(&b[37..45], &c[37..45], 4, 60, r as u64) && others(&b, &c, 37, 45), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 59 && v as i64 <= (1u64 << 59) as i64 - 1 || 60 == 64 {
                let mut c = b;
                { let mut m = S4_5::new(&mut c[..]); m.set_f60(v); }
                assert!(S4_5::new(&c[..]).get_f60() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[45..54], 4, 61);
            assert!(s.get_raw_f61() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 3) as i64) >> 3;
            assert!(s.get_f61() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_5::new(&mut c[..]); m.set_f61(v); }
            assert!(updated::<false>(&b[45..54], &c[45..54], 4, 61, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 45, 54), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_5::new(&mut c[..]); m.set_raw_f61(r); }
            assert!(updated::<false>(&b[45..54], &c[45..54], 4, 61, r as u64) && others(&b, &c, 45, 54), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 60 && v as i64 <= (1u64 << 60) as i64 - 1 || 61 == 64 {
                let mut c = b;
                { let mut m = S4_5::new(&mut c[..]); m.set_f61(v); }
                assert!(S4_5::new(&c[..]).get_f61() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[53..62], 4, 62);
            assert!(s.get_raw_f62() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 2) as i64) >> 2;
            assert!(s.get_f62() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_5::new(&mut c[..]); m.set_f62(v); }
            assert!(updated::<false>(&b[53..62], &c[53..62], 4, 62, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 53, 62), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_5::new(&mut c[..]); m.set_raw_f62(r); }
            assert!(updated::<false>(&b[53..62], &c[53..62], 4, 62, r as u64) && others(&b, &c, 53, 62), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 61 && v as i64 <= (1u64 << 61) as i64 - 1 || 62 == 64 {
                let mut c = b;
                { let mut m = S4_5::new(&mut c[..]); m.set_f62(v); }
                assert!(S4_5::new(&c[..]).get_f62() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o5_g0() {
        use crate::ilet::*;
        const N: usize = 13;
        assert!(<S5_0<()> as FixedSize>::SIZE == N && SIZE_S5_0 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S5_0::new(&b[..]);
        {
            let raw = field::<false>(&b[0..1], 5, 2);
            assert!(s.get_raw_f2() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 62) as i64) >> 62;
            assert!(s.get_f2() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_0::new(&mut c[..]); m.set_f2(v); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 5, 2, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_0::new(&mut c[..]); m.set_raw_f2(r); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 5, 2, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 1 && v as i64 <= (1u64 << 1) as i64 - 1 || 2 == 64 {
                let mut c = b;
                { let mut m = S5_0::new(&mut c[..]); m.set_f2(v); }
                assert!(S5_0::new(&c[..]).get_f2() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[1..3], 5, 4);
            assert!(s.get_raw_f4() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 60) as i64) >> 60;
            assert!(s.get_f4() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_0::new(&mut c[..]); m.set_f4(v); }
            assert!(updated::<false>(&b[1..3], &c[1..3], 5, 4, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_0::new(&mut c[..]); m.set_raw_f4(r); }
            assert!(updated::<false>(&b[1..3], &c[1..3], 5, 4, r as u64) && others(&b, &c, 1, 3), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 3 && v as i64 <= (1u64 << 3) as i64 - 1 || 4 == 64 {
                let mut c = b;
                { let mut m = S5_0::new(&mut c[..]); m.set_f4(v); }
                assert!(S5_0::new(&c[..]).get_f4() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[2..4], 5, 5);
            assert!(s.get_raw_f5() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 59) as i64) >> 59;
            assert!(s.get_f5() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_0::new(&mut c[..]); m.set_f5(v); }
            assert!(updated::<false>(&b[2..4], &c[2..4], 5, 5, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_0::new(&mut c[..]); m.set_raw_f5(r); }
            assert!(updated::<false>(&b[2..4], &c[2..4], 5, 5, r as u64) && others(&b, &c, 2, 4), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 4 && v as i64 <= (1u64 << 4) as i64 - 1 || 5 == 64 {
                let mut c = b;
                { let mut m = S5_0::new(&mut c[..]); m.set_f5(v); }
                assert!(S5_0::new(&c[..]).get_f5() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[3..5], 5, 6);
            assert!(s.get_raw_f6() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 58) as i64) >> 58;
            assert!(s.get_f6() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_0::new(&mut c[..]); m.set_f6(v); }
            assert!(updated::<false>(&b[3..5], &c[3..5], 5, 6, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_0::new(&mut c[..]); m.set_raw_f6(r); }
            assert!(updated::<false>(&b[3..5], &c[3..5], 5, 6, r as u64) && others(&b, &c, 3, 5), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 5 && v as i64 <= (1u64 << 5) as i64 - 1 || 6 == 64 {
                let mut c = b;
                { let mut m = S5_0::new(&mut c[..]); m.set_f6(v); }
                assert!(S5_0::new(&c[..]).get_f6() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[4..6], 5, 10);
            assert!(s.get_raw_f10() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 54) as i64) >> 54;
            assert!(s.get_f10() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_0::new(&mut c[..]); m.set_f10(v); }
            assert!(updated::<false>(&b[4..6], &c[4..6], 5, 10, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_0::new(&mut c[..]); m.set_raw_f10(r); }
            assert!(updated::<false>(&b[4..6], &c[4..6], 5, 10, r as u64) && others(&b, &c, 4, 6), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 9 && v as i64 <= (1u64 << 9) as i64 - 1 || 10 == 64 {
                let mut c = b;
                { let mut m = S5_0::new(&mut c[..]); m.set_f10(v); }
                assert!(S5_0::new(&c[..]).get_f10() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[6..8], 5, 11);
            assert!(s.get_raw_f11() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 53) as i64) >> 53;
            assert!(s.get_f11() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_0::new(&mut c[..]); m.set_f11(v); }
            assert!(updated::<false>(&b[6..8], &c[6..8], 5, 11, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_0::new(&mut c[..]); m.set_raw_f11(r); }
            assert!(updated::<false>(&b[6..8], &c[6..8], 5, 11, r as u64) && others(&b, &c, 6, 8), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 10 && v as i64 <= (1u64 << 10) as i64 - 1 || 11 == 64 {
                let mut c = b;
                { let mut m = S5_0::new(&mut c[..]); m.set_f11(v); }
                assert!(S5_0::new(&c[..]).get_f11() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[8..11], 5, 12);
            assert!(s.get_raw_f12() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 52) as i64) >> 52;
            assert!(s.get_f12() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_0::new(&mut c[..]); m.set_f12(v); }
            assert!(updated::<false>(&b[8..11], &c[8..11], 5, 12, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 8, 11), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_0::new(&mut c[..]); m.set_raw_f12(r); }
            assert!(updated::<false>(&b[8..11], &c[8..11], 5, 12, r as u64) && others(&b, &c, 8, 11), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 11 && v as i64 <= (1u64 << 11) as i64 - 1 || 12 == 64 {
                let mut c = b;
                { let mut m = S5_0::new(&mut c[..]); m.set_f12(v); }
                assert!(S5_0::new(&c[..]).get_f12() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[10..13], 5, 13);
            assert!(s.get_raw_f13() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 51) as i64) >> 51;
            assert!(s.get_f13() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_0::new(&mut c[..]); m.set_f13(v); }
            assert!(updated::<false>(&b[10..13], &c[10..13], 5, 13, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_0::new(&mut c[..]); m.set_raw_f13(r); }
            assert!(updated::<false>(&b[10..13], &c[10..13], 5, 13, r as u64) && others(&b, &c, 10, 13), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 12 && v as i64 <= (1u64 << 12) as i64 - 1 || 13 == 64 {
                let mut c = b;
                { let mut m = S5_0::new(&mut c[..]); m.set_f13(v); }
                assert!(S5_0::new(&c[..]).get_f13() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o5_g1() {
        use crate::ilet::*;
        const N: usize = 23;
        assert!(<S5_1<()> as FixedSize>::SIZE == N && SIZE_S5_1 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S5_1::new(&b[..]);
        {
            let raw = field::<false>(&b[0..3], 5, 14);
            assert!(s.get_raw_f14() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 50) as i64) >> 50;
            assert!(s.get_f14() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_1::new(&mut c[..]); m.set_f14(v); }
            assert!(updated::<false>(&b[0..3], &c[0..3], 5, 14, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_1::new(&mut c[..]); m.set_raw_f14(r); }
            assert!(updated::<false>(&b[0..3], &c[0..3], 5, 14, r as u64) && others(&b, &c, 0, 3), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 13 && v as i64 <= (1u64 << 13) as i64 - 1 || 14 == 64 {
                let mut c = b;
                { let mut m = S5_1::new(&mut c[..]); m.set_f14(v); }
                assert!(S5_1::new(&c[..]).get_f14() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[2..5], 5, 15);
            assert!(s.get_raw_f15() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 49) as i64) >> 49;
            assert!(s.get_f15() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_1::new(&mut c[..]); m.set_f15(v); }
            assert!(updated::<false>(&b[2..5], &c[2..5], 5, 15, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_1::new(&mut c[..]); m.set_raw_f15(r); }
            assert!(updated::<false>(&b[2..5], &c[2..5], 5, 15, r as u64) && others(&b, &c, 2, 5), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 14 && v as i64 <= (1u64 << 14) as i64 - 1 || 15 == 64 {
                let mut c = b;
                { let mut m = S5_1::new(&mut c[..]); m.set_f15(v); }
                assert!(S5_1::new(&c[..]).get_f15() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[4..7], 5, 18);
            assert!(s.get_raw_f18() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 46) as i64) >> 46;
            assert!(s.get_f18() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_1::new(&mut c[..]); m.set_f18(v); }
            assert!(updated::<false>(&b[4..7], &c[4..7], 5, 18, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_1::new(&mut c[..]); m.set_raw_f18(r); }
            assert!(updated::<false>(&b[4..7], &c[4..7], 5, 18, r as u64) && others(&b, &c, 4, 7), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 17 && v as i64 <= (1u64 << 17) as i64 - 1 || 18 == 64 {
                let mut c = b;
                { let mut m = S5_1::new(&mut c[..]); m.set_f18(v); }
                assert!(S5_1::new(&c[..]).get_f18() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[7..10], 5, 19);
            assert!(s.get_raw_f19() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 45) as i64) >> 45;
            assert!(s.get_f19() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_1::new(&mut c[..]); m.set_f19(v); }
            assert!(updated::<false>(&b[7..10], &c[7..10], 5, 19, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_1::new(&mut c[..]); m.set_raw_f19(r); }
            assert!(updated::<false>(&b[7..10], &c[7..10], 5, 19, r as u64) && others(&b, &c, 7, 10), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 18 && v as i64 <= (1u64 << 18) as i64 - 1 || 19 == 64 {
                let mut c = b;
                { let mut m = S5_1::new(&mut c[..]); m.set_f19(v); }
                assert!(S5_1::new(&c[..]).get_f19() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[10..14], 5, 20);
            assert!(s.get_raw_f20() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 44) as i64) >> 44;
            assert!(s.get_f20() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_1::new(&mut c[..]); m.set_f20(v); }
            assert!(updated::<false>(&b[10..14], &c[10..14], 5, 20, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 14), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_1::new(&mut c[..]); m.set_raw_f20(r); }
            assert!(updated::<false>(&b[10..14], &c[10..14], 5, 20, r as u64) && others(&b, &c, 10, 14), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 19 && v as i64 <= (1u64 << 19) as i64 - 1 || 20 == 64 {
                let mut c = b;
                { let mut m = S5_1::new(&mut c[..]); m.set_f20(v); }
                assert!(S5_1::new(&c[..]).get_f20() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[13..17], 5, 21);
            assert!(s.get_raw_f21() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 43) as i64) >> 43;
            assert!(s.get_f21() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_1::new(&mut c[..]); m.set_f21(v); }
            assert!(updated::<false>(&b[13..17], &c[13..17], 5, 21, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 13, 17), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_1::new(&mut c[..]); m.set_raw_f21(r); }
            assert!(updated::<false>(&b[13..17], &c[13..17], 5, 21, r as u64) && others(&b, &c, 13, 17), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 20 && v as i64 <= (1u64 << 20) as i64 - 1 || 21 == 64 {
                let mut c = b;
                { let mut m = S5_1::new(&mut c[..]); m.set_f21(v); }
                assert!(S5_1::new(&c[..]).get_f21() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[16..20], 5, 22);
            assert!(s.get_raw_f22() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 42) as i64) >> 42;
            assert!(s.get_f22() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_1::new(&mut c[..]); m.set_f22(v); }
            assert!(updated::<false>(&b[16..20], &c[16..20], 5, 22, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_1::new(&mut c[..]); m.set_raw_f22(r); }
            assert!(updated::<false>(&b[16..20], &c[16..20], 5, 22, r as u64) && others(&b, &c, 16, 20), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 21 && v as i64 <= (1u64 << 21) as i64 - 1 || 22 == 64 {
                let mut c = b;
                { let mut m = S5_1::new(&mut c[..]); m.set_f22(v); }
                assert!(S5_1::new(&c[..]).get_f22() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[19..23], 5, 23);
            assert!(s.get_raw_f23() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 41) as i64) >> 41;
            assert!(s.get_f23() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_1::new(&mut c[..]); m.set_f23(v); }
            assert!(updated::<false>(&b[19..23], &c[19..23], 5, 23, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 19, 23), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_1::new(&mut c[..]); m.set_raw_f23(r); }
            assert!(updated::<false>(&b[19..23], &c[19..23], 5, 23, r as u64) && others(&b, &c, 19, 23), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 22 && v as i64 <= (1u64 << 22) as i64 - 1 || 23 == 64 {
                let mut c = b;
                { let mut m = S5_1::new(&mut c[..]); m.set_f23(v); }
                assert!(S5_1::new(&c[..]).get_f23() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o5_g2() {
        use crate::ilet::*;
        const N: usize = 34;
        assert!(<S5_2<()> as FixedSize>::SIZE == N && SIZE_S5_2 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S5_2::new(&b[..]);
        {
            let raw = field::<false>(&b[0..4], 5, 26);
            assert!(s.get_raw_f26() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 38) as i64) >> 38;
            assert!(s.get_f26() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_2::new(&mut c[..]); m.set_f26(v); }
            assert!(updated::<false>(&b[0..4], &c[0..4], 5, 26, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_2::new(&mut c[..]); m.set_raw_f26(r); }
            assert!(updated::<false>(&b[0..4], &c[0..4], 5, 26, r as u64) && others(&b, &c, 0, 4), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 25 && v as i64 <= (1u64 << 25) as i64 - 1 || 26 == 64 {
                let mut c = b;
                { let mut m = S5_2::new(&mut c[..]); m.set_f26(v); }
                assert!(S5_2::new(&c[..]).get_f26() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[4..8], 5, 27);
            assert!(s.get_raw_f27() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 37) as i64) >> 37;
            assert!(s.get_f27() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_2::new(&mut c[..]); m.set_f27(v); }
            assert!(updated::<false>(&b[4..8], &c[4..8], 5, 27, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_2::new(&mut c[..]); m.set_raw_f27(r); }
            assert!(updated::<false>(&b[4..8], &c[4..8], 5, 27, r as u64) && others(&b, &c, 4, 8), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 26 && v as i64 <= (1u64 << 26) as i64 - 1 || 27 == 64 {
                let mut c = b;
                { let mut m = S5_2::new(&mut c[..]); m.set_f27(v); }
                assert!(S5_2::new(&c[..]).get_f27() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[8..13], 5, 28);
            assert!(s.get_raw_f28() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 36) as i64) >> 36;
            assert!(s.get_f28() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_2::new(&mut c[..]); m.set_f28(v); }
            assert!(updated::<false>(&b[8..13], &c[8..13], 5, 28, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 8, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_2::new(&mut c[..]); m.set_raw_f28(r); }
            assert!(updated::<false>(&b[8..13], &c[8..13], 5, 28, r as u64) && others(&b, &c, 8, 13), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 27 && v as i64 <= (1u64 << 27) as i64 - 1 || 28 == 64 {
                let mut c = b;
                { let mut m = S5_2::new(&mut c[..]); m.set_f28(v); }
                assert!(S5_2::new(&c[..]).get_f28() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[12..17], 5, 29);
            assert!(s.get_raw_f29() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 35) as i64) >> 35;
            assert!(s.get_f29() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_2::new(&mut c[..]); m.set_f29(v); }
            assert!(updated::<false>(&b[12..17], &c[12..17], 5, 29, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 17), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_2::new(&mut c[..]); m.set_raw_f29(r); }
            assert!(updated::<false>(&b[12..17], &c[12..17], 5, 29, r as u64) && others(&b, &c, 12, 17), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 28 && v as i64 <= (1u64 << 28) as i64 - 1 || 29 == 64 {
                let mut c = b;
                { let mut m = S5_2::new(&mut c[..]); m.set_f29(v); }
                assert!(S5_2::new(&c[..]).get_f29() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[16..21], 5, 30);
            assert!(s.get_raw_f30() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 34) as i64) >> 34;
            assert!(s.get_f30() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_2::new(&mut c[..]); m.set_f30(v); }
            assert!(updated::<false>(&b[16..21], &c[16..21], 5, 30, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 21), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_2::new(&mut c[..]); m.set_raw_f30(r); }
            assert!(updated::<false>(&b[16..21], &c[16..21], 5, 30, r as u64) && others(&b, &c, 16, 21), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 29 && v as i64 <= (1u64 << 29) as i64 - 1 || 30 == 64 {
                let mut c = b;
                { let mut m = S5_2::new(&mut c[..]); m.set_f30(v); }
                assert!(S5_2::new(&c[..]).get_f30() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[20..25], 5, 31);
            assert!(s.get_raw_f31() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 33) as i64) >> 33;
            assert!(s.get_f31() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_2::new(&mut c[..]); m.set_f31(v); }
            assert!(updated::<false>(&b[20..25], &c[20..25], 5, 31, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 25), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_2::new(&mut c[..]); m.set_raw_f31(r); }
            assert!(updated::<false>(&b[20..25], &c[20..25], 5, 31, r as u64) && others(&b, &c, 20, 25), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 30 && v as i64 <= (1u64 << 30) as i64 - 1 || 31 == 64 {
                let mut c = b;
                { let mut m = S5_2::new(&mut c[..]); m.set_f31(v); }
                assert!(S5_2::new(&c[..]).get_f31() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[24..29], 5, 34);
            assert!(s.get_raw_f34() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 30) as i64) >> 30;
            assert!(s.get_f34() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_2::new(&mut c[..]); m.set_f34(v); }
            assert!(updated::<false>(&b[24..29], &c[24..29], 5, 34, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 24, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_2::new(&mut c[..]); m.set_raw_f34(r); }
            assert!(updated::<false>(&b[24..29], &c[24..29], 5, 34, r as u64) && others(&b, &c, 24, 29), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 33 && v as i64 <= (1u64 << 33) as i64 - 1 || 34 == 64 {
                let mut c = b;
                { let mut m = S5_2::new(&mut c[..]); m.set_f34(v); }
                assert!(S5_2::new(&c[..]).get_f34() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[29..34], 5, 35);
            assert!(s.get_raw_f35() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 29) as i64) >> 29;
            assert!(s.get_f35() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_2::new(&mut c[..]); m.set_f35(v); }
            assert!(updated::<false>(&b[29..34], &c[29..34], 5, 35, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 29, 34), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_2::new(&mut c[..]); m.set_raw_f35(r); }
            assert!(updated::<false>(&b[29..34], &c[29..34], 5, 35, r as u64) && others(&b, &c, 29, 34), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 34 && v as i64 <= (1u64 << 34) as i64 - 1 || 35 == 64 {
                let mut c = b;
                { let mut m = S5_2::new(&mut c[..]); m.set_f35(v); }
                assert!(S5_2::new(&c[..]).get_f35() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o5_g3() {
        use crate::ilet::*;
        const N: usize = 45;
        assert!(<S5_3<()> as FixedSize>::SIZE == N && SIZE_S5_3 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S5_3::new(&b[..]);
        {
            let raw = field::<false>(&b[0..6], 5, 36);
            assert!(s.get_raw_f36() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 28) as i64) >> 28;
            assert!(s.get_f36() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_3::new(&mut c[..]); m.set_f36(v); }
            assert!(updated::<false>(&b[0..6], &c[0..6], 5, 36, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_3::new(&mut c[..]); m.set_raw_f36(r); }
            assert!(updated::<false>(&b[0..6], &c[0..6], 5, 36, r as u64) && others(&b, &c, 0, 6), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 35 && v as i64 <= (1u64 << 35) as i64 - 1 || 36 == 64 {
                let mut c = b;
                { let mut m = S5_3::new(&mut c[..]); m.set_f36(v); }
                assert!(S5_3::new(&c[..]).get_f36() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[5..11], 5, 37);
            assert!(s.get_raw_f37() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 27) as i64) >> 27;
            assert!(s.get_f37() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_3::new(&mut c[..]); m.set_f37(v); }
            assert!(updated::<false>(&b[5..11], &c[5..11], 5, 37, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 11), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_3::new(&mut c[..]); m.set_raw_f37(r); }
            assert!(updated::<false>(&b[5..11], &c[5..11], 5, 37, r as u64) && others(&b, &c, 5, 11), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 36 && v as i64 <= (1u64 << 36) as i64 - 1 || 37 == 64 {
                let mut c = b;
                { let mut m = S5_3::new(&mut c[..]); m.set_f37(v); }
                assert!(S5_3::new(&c[..]).get_f37() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[10..16], 5, 38);
            assert!(s.get_raw_f38() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 26) as i64) >> 26;
            assert!(s.get_f38() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_3::new(&mut c[..]); m.set_f38(v); }
            assert!(updated::<false>(&b[10..16], &c[10..16], 5, 38, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 16), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_3::new(&mut c[..]); m.set_raw_f38(r); }
            assert!(updated::<false>(&b[10..16], &c[10..16], 5, 38, r as u64) && others(&b, &c, 10, 16), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 37 && v as i64 <= (1u64 << 37) as i64 - 1 || 38 == 64 {
                let mut c = b;
                { let mut m = S5_3::new(&mut c[..]); m.set_f38(v); }
                assert!(S5_3::new(&c[..]).get_f38() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[15..21], 5, 39);
            assert!(s.get_raw_f39() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 25) as i64) >> 25;
            assert!(s.get_f39() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_3::new(&mut c[..]); m.set_f39(v); }
            assert!(updated::<false>(&b[15..21], &c[15..21], 5, 39, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 15, 21), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_3::new(&mut c[..]); m.set_raw_f39(r); }
            assert!(updated::<false>(&b[15..21], &c[15..21], 5, 39, r as u64) && others(&b, &c, 15, 21), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 38 && v as i64 <= (1u64 << 38) as i64 - 1 || 39 == 64 {
                let mut c = b;
                { let mut m = S5_3::new(&mut c[..]); m.set_f39(v); }
                assert!(S5_3::new(&c[..]).get_f39() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[20..26], 5, 41);
            assert!(s.get_raw_f41() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 23) as i64) >> 23;
            assert!(s.get_f41() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_3::new(&mut c[..]); m.set_f41(v); }
            assert!(updated::<false>(&b[20..26], &c[20..26], 5, 41, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 26), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_3::new(&mut c[..]); m.set_raw_f41(r); }
            assert!(updated::<false>(&b[20..26], &c[20..26], 5, 41, r as u64) && others(&b, &c, 20, 26), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 40 && v as i64 <= (1u64 << 40) as i64 - 1 || 41 == 64 {
                let mut c = b;
                { let mut m = S5_3::new(&mut c[..]); m.set_f41(v); }
                assert!(S5_3::new(&c[..]).get_f41() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[26..32], 5, 42);
            assert!(s.get_raw_f42() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 22) as i64) >> 22;
            assert!(s.get_f42() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_3::new(&mut c[..]); m.set_f42(v); }
            assert!(updated::<false>(&b[26..32], &c[26..32], 5, 42, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 26, 32), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_3::new(&mut c[..]); m.set_raw_f42(r); }
            assert!(updated::<false>(&b[26..32], &c[26..32], 5, 42, r as u64) && others(&b, &c, 26, 32), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 41 && v as i64 <= (1u64 << 41) as i64 - 1 || 42 == 64 {
                let mut c = b;
                { let mut m = S5_3::new(&mut c[..]); m.set_f42(v); }
                assert!(S5_3::new(&c[..]).get_f42() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[32..38], 5, 43);
            assert!(s.get_raw_f43() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 21) as i64) >> 21;
            assert!(s.get_f43() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_3::new(&mut c[..]); m.set_f43(v); }
            assert!(updated::<false>(&b[32..38], &c[32..38], 5, 43, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 32, 38), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_3::new(&mut c[..]); m.set_raw_f43(r); }
            assert!(updated::<false>(&b[32..38], &c[32..38], 5, 43, r as u64) && others(&b, &c, 32, 38), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 42 && v as i64 <= (1u64 << 42) as i64 - 1 || 43 == 64 {
                let mut c = b;
                { let mut m = S5_3::new(&mut c[..]); m.set_f43(v); }
                assert!(S5_3::new(&c[..]).get_f43() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[38..45], 5, 44);
            assert!(s.get_raw_f44() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 20) as i64) >> 20;
            assert!(s.get_f44() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_3::new(&mut c[..]); m.set_f44(v); }
            assert!(updated::<false>(&b[38..45], &c[38..45], 5, 44, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 38, 45), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_3::new(&mut c[..]); m.set_raw_f44(r); }
            assert!(updated::<false>(&b[38..45], &c[38..45], 5, 44, r as u64) && others(&b, &c, 38, 45), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 43 && v as i64 <= (1u64 << 43) as i64 - 1 || 44 == 64 {
                let mut c = b;
                { let mut m = S5_3::new(&mut c[..]); m.set_f44(v); }
                assert!(S5_3::new(&c[..]).get_f44() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o5_g4() {
        use crate::ilet::*;
        const N: usize = 53;
        assert!(<S5_4<()> as FixedSize>::SIZE == N && SIZE_S5_4 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S5_4::new(&b[..]);
        {
            let raw = field::<false>(&b[0..7], 5, 45);
            assert!(s.get_raw_f45() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 19) as i64) >> 19;
            assert!(s.get_f45() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_4::new(&mut c[..]); m.set_f45(v); }
            assert!(updated::<false>(&b[0..7], &c[0..7], 5, 45, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_4::new(&mut c[..]); m.set_raw_f45(r); }
            assert!(updated::<false>(&b[0..7], &c[0..7], 5, 45, r as u64) && others(&b, &c, 0, 7), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 44 && v as i64 <= (1u64 << 44) as i64 - 1 || 45 == 64 {
                let mut c = b;
                { let mut m = S5_4::new(&mut c[..]); m.set_f45(v); }
                assert!(S5_4::new(&c[..]).get_f45() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[6..13], 5, 46);
            assert!(s.get_raw_f46() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 18) as i64) >> 18;
            assert!(s.get_f46() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_4::new(&mut c[..]); m.set_f46(v); }
            assert!(updated::<false>(&b[6..13], &c[6..13], 5, 46, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_4::new(&mut c[..]); m.set_raw_f46(r); }
            assert!(updated::<false>(&b[6..13], &c[6..13], 5, 46, r as u64) && others(&b, &c, 6, 13), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 45 && v as i64 <= (1u64 << 45) as i64 - 1 || 46 == 64 {
                let mut c = b;
                { let mut m = S5_4::new(&mut c[..]); m.set_f46(v); }
                assert!(S5_4::new(&c[..]).get_f46() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[12..19], 5, 47);
            assert!(s.get_raw_f47() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 17) as i64) >> 17;
            assert!(s.get_f47() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_4::new(&mut c[..]); m.set_f47(v); }
            assert!(updated::<false>(&b[12..19], &c[12..19], 5, 47, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_4::new(&mut c[..]); m.set_raw_f47(r); }
            assert!(updated::<false>(&b[12..19], &c[12..19], 5, 47, r as u64) && others(&b, &c, 12, 19), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 46 && v as i64 <= (1u64 << 46) as i64 - 1 || 47 == 64 {
                let mut c = b;
                { let mut m = S5_4::new(&mut c[..]); m.set_f47(v); }
                assert!(S5_4::new(&c[..]).get_f47() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[18..25], 5, 48);
            assert!(s.get_raw_f48() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 16) as i64) >> 16;
            assert!(s.get_f48() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_4::new(&mut c[..]); m.set_f48(v); }
            assert!(updated::<false>(&b[18..25], &c[18..25], 5, 48, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 18, 25), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_4::new(&mut c[..]); m.set_raw_f48(r); }
            assert!(updated::<false>(&b[18..25], &c[18..25], 5, 48, r as u64) && others(&b, &c, 18, 25), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 47 && v as i64 <= (1u64 << 47) as i64 - 1 || 48 == 64 {
                let mut c = b;
                { let mut m = S5_4::new(&mut c[..]); m.set_f48(v); }
                assert!(S5_4::new(&c[..]).get_f48() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[24..31], 5, 49);
            assert!(s.get_raw_f49() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 15) as i64) >> 15;
            assert!(s.get_f49() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_4::new(&mut c[..]); m.set_f49(v); }
            assert!(updated::<false>(&b[24..31], &c[24..31], 5, 49, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 24, 31), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_4::new(&mut c[..]); m.set_raw_f49(r); }
            assert!(updated::<false>(&b[24..31], &c[24..31], 5, 49, r as u64) && others(&b, &c, 24, 31), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 48 && v as i64 <= (1u64 << 48) as i64 - 1 || 49 == 64 {
                let mut c = b;
                { let mut m = S5_4::new(&mut c[..]); m.set_f49(v); }
                assert!(S5_4::new(&c[..]).get_f49() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[31..38], 5, 50);
            assert!(s.get_raw_f50() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 14) as i64) >> 14;
            assert!(s.get_f50() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_4::new(&mut c[..]); m.set_f50(v); }
            assert!(updated::<false>(&b[31..38], &c[31..38], 5, 50, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 31, 38), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_4::new(&mut c[..]); m.set_raw_f50(r); }
            assert!(updated::<false>(&b[31..38], &c[31..38], 5, 50, r as u64) && others(&b, &c, 31, 38), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 49 && v as i64 <= (1u64 << 49) as i64 - 1 || 50 == 64 {
                let mut c = b;
                { let mut m = S5_4::new(&mut c[..]); m.set_f50(v); }
                assert!(S5_4::new(&c[..]).get_f50() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[38..45], 5, 51);
            assert!(s.get_raw_f51() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 13) as i64) >> 13;
            assert!(s.get_f51() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_4::new(&mut c[..]); m.set_f51(v); }
            assert!(updated::<false>(&b[38..45], &c[38..45], 5, 51, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 38, 45), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_4::new(&mut c[..]); m.set_raw_f51(r); }
            assert!(updated::<false>(&b[38..45], &c[38..45], 5, 51, r as u64) && others(&b, &c, 38, 45), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 50 && v as i64 <= (1u64 << 50) as i64 - 1 || 51 == 64 {
                let mut c = b;
                { let mut m = S5_4::new(&mut c[..]); m.set_f51(v); }
                assert!(S5_4::new(&c[..]).get_f51() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[45..53], 5, 52);
            assert!(s.get_raw_f52() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 12) as i64) >> 12;
            assert!(s.get_f52() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_4::new(&mut c[..]); m.set_f52(v); }
            assert!(updated::<false>(&b[45..53], &c[45..53], 5, 52, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 45, 53), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_4::new(&mut c[..]); m.set_raw_f52(r); }
            assert!(updated::<false>(&b[45..53], &c[45..53], 5, 52, r as u64) && others(&b, &c, 45, 53), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 51 && v as i64 <= (1u64 << 51) as i64 - 1 || 52 == 64 {
                let mut c = b;
                { let mut m = S5_4::new(&mut c[..]); m.set_f52(v); }
                assert!(S5_4::new(&c[..]).get_f52() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o5_g5() {
        use crate::ilet::*;
        const N: usize = 62;
        assert!(<S5_5<()> as FixedSize>::SIZE == N && SIZE_S5_5 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S5_5::new(&b[..]);
        {
            let raw = field::<false>(&b[0..8], 5, 53);
            assert!(s.get_raw_f53() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 11) as i64) >> 11;
            assert!(s.get_f53() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_5::new(&mut c[..]); m.set_f53(v); }
            assert!(updated::<false>(&b[0..8], &c[0..8], 5, 53, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_5::new(&mut c[..]); m.set_raw_f53(r); }
            assert!(updated::<false>(&b[0..8], &c[0..8], 5, 53, r as u64) && others(&b, &c, 0, 8), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 52 && v as i64 <= (1u64 << 52) as i64 - 1 || 53 == 64 {
                let mut c = b;
                { let mut m = S5_5::new(&mut c[..]); m.set_f53(v); }
                assert!(S5_5::new(&c[..]).get_f53() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[7..15], 5, 54);
            assert!(s.get_raw_f54() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 10) as i64) >> 10;
            assert!(s.get_f54() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_5::new(&mut c[..]); m.set_f54(v); }
            assert!(updated::<false>(&b[7..15], &c[7..15], 5, 54, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 15), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_5::new(&mut c[..]); m.set_raw_f54(r); }
            assert!(updated::<false>(&b[7..15], &c[7..15], 5, 54, r as u64) && others(&b, &c, 7, 15), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 53 && v as i64 <= (1u64 << 53) as i64 - 1 || 54 == 64 {
                let mut c = b;
                { let mut m = S5_5::new(&mut c[..]); m.set_f54(v); }
                assert!(S5_5::new(&c[..]).get_f54() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[14..22], 5, 55);
            assert!(s.get_raw_f55() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 9) as i64) >> 9;
            assert!(s.get_f55() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_5::new(&mut c[..]); m.set_f55(v); }
            assert!(updated::<false>(&b[14..22], &c[14..22], 5, 55, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 14, 22), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_5::new(&mut c[..]); m.set_raw_f55(r); }
            assert!(updated::<false>(&b[14..22], &c[14..22], 5, 55, r as u64) && others(&b, &c, 14, 22), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 54 && v as i64 <= (1u64 << 54) as i64 - 1 || 55 == 64 {
                let mut c = b;
                { let mut m = S5_5::new(&mut c[..]); m.set_f55(v); }
                assert!(S5_5::new(&c[..]).get_f55() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[21..29], 5, 58);
            assert!(s.get_raw_f58() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 6) as i64) >> 6;
            assert!(s.get_f58() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_5::new(&mut c[..]); m.set_f58(v); }
            assert!(updated::<false>(&b[21..29], &c[21..29], 5, 58, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 21, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_5::new(&mut c[..]); m.set_raw_f58(r); }
            assert!(updated::<false>(&b[21..29], &c[21..29], 5, 58, r as u64) && others(&b, &c, 21, 29), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 57 && v as i64 <= (1u64 << 57) as i64 - 1 || 58 == 64 {
                let mut c = b;
                { let mut m = S5_5::new(&mut c[..]); m.set_f58(v); }
                assert!(S5_5::new(&c[..]).get_f58() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[29..37], 5, 59);
            assert!(s.get_raw_f59() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 5) as i64) >> 5;
            assert!(s.get_f59() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_5::new(&mut c[..]); m.set_f59(v); }
            assert!(updated::<false>(&b[29..37], &c[29..37], 5, 59, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 29, 37), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_5::new(&mut c[..]); m.set_raw_f59(r); }
            assert!(updated::<false>(&b[29..37], &c[29..37], 5, 59, r as u64) && others(&b, &c, 29, 37), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 58 && v as i64 <= (1u64 << 58) as i64 - 1 || 59 == 64 {
                let mut c = b;
                { let mut m = S5_5::new(&mut c[..]); m.set_f59(v); }
                assert!(S5_5::new(&c[..]).get_f59() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[37..46], 5, 60);
            assert!(s.get_raw_f60() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 4) as i64) >> 4;
            assert!(s.get_f60() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_5::new(&mut c[..]); m.set_f60(v); }
            assert!(updated::<false>(&b[37..46], &c[37..46], 5, 60, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 37, 46), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_5::new(&mut c[..]); m.set_raw_f60(r); }
            assert!(updated::<false>(&b[37..46], &c[37..46], 5, 60, r as u64) && others(&b, &c, 37, 46), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 59 && v as i64 <= (1u64 << 59) as i64 - 1 || 60 == 64 {
                let mut c = b;
                { let mut m = S5_5::new(&mut c[..]); m.set_f60(v); }
                assert!(S5_5::new(&c[..]).get_f60() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[45..54], 5, 61);
            assert!(s.get_raw_f61() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 3) as i64) >> 3;
            assert!(s.get_f61() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_5::new(&mut c[..]); m.set_f61(v); }
            assert!(updated::<false>(&b[45..54], &c[45..54], 5, 61, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 45, 54), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_5::new(&mut c[..]); m.set_raw_f61(r); }
            assert!(updated::<false>(&b[45..54], &c[45..54], 5, 61, r as u64) && others(&b, &c, 45, 54), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 60 && v as i64 <= (1u64 << 60) as i64 - 1 || 61 == 64 {
                let mut c = b;
                { let mut m = S5_5::new(&mut c[..]); m.set_f61(v); }
                assert!(S5_5::new(&c[..]).get_f61() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[53..62], 5, 62);
            assert!(s.get_raw_f62() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 2) as i64) >> 2;
            assert!(s.get_f62() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_5::new(&mut c[..]); m.set_f62(v); }
            assert!(updated::<false>(&b[53..62], &c[53..62], 5, 62, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 53, 62), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_5::new(&mut c[..]); m.set_raw_f62(r); }
            assert!(updated::<false>(&b[53..62], &c[53..62], 5, 62, r as u64) && others(&b, &c, 53, 62), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 61 && v as i64 <= (1u64 << 61) as i64 - 1 || 62 == 64 {
                let mut c = b;
                { let mut m = S5_5::new(&mut c[..]); m.set_f62(v); }
                assert!(S5_5::new(&c[..]).get_f62() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o6_g0() {
        use crate::ilet::*;
        const N: usize = 13;
        assert!(<S6_0<()> as FixedSize>::SIZE == N && SIZE_S6_0 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S6_0::new(&b[..]);
        {
            let raw = field::<false>(&b[0..1], 6, 2);
            assert!(s.get_raw_f2() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 62) as i64) >> 62;
            assert!(s.get_f2() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_0::new(&mut c[..]); m.set_f2(v); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 6, 2, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_0::new(&mut c[..]); m.set_raw_f2(r); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 6, 2, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 1 && v as i64 <= (1u64 << 1) as i64 - 1 || 2 == 64 {
                let mut c = b;
                { let mut m = S6_0::new(&mut c[..]); m.set_f2(v); }
                assert!(S6_0::new(&c[..]).get_f2() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[1..3], 6, 4);
            assert!(s.get_raw_f4() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 60) as i64) >> 60;
            assert!(s.get_f4() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_0::new(&mut c[..]); m.set_f4(v); }
            assert!(updated::<false>(&b[1..3], &c[1..3], 6, 4, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_0::new(&mut c[..]); m.set_raw_f4(r); }
            assert!(updated::<false>(&b[1..3], &c[1..3], 6, 4, r as u64) && others(&b, &c, 1, 3), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 3 && v as i64 <= (1u64 << 3) as i64 - 1 || 4 == 64 {
                let mut c = b;
                { let mut m = S6_0::new(&mut c[..]); m.set_f4(v); }
                assert!(S6_0::new(&c[..]).get_f4() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[2..4], 6, 5);
            assert!(s.get_raw_f5() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 59) as i64) >> 59;
            assert!(s.get_f5() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_0::new(&mut c[..]); m.set_f5(v); }
            assert!(updated::<false>(&b[2..4], &c[2..4], 6, 5, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_0::new(&mut c[..]); m.set_raw_f5(r); }
            assert!(updated::<false>(&b[2..4], &c[2..4], 6, 5, r as u64) && others(&b, &c, 2, 4), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 4 && v as i64 <= (1u64 << 4) as i64 - 1 || 5 == 64 {
                let mut c = b;
                { let mut m = S6_0::new(&mut c[..]); m.set_f5(v); }
                assert!(S6_0::new(&c[..]).get_f5() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[3..5], 6, 6);
            assert!(s.get_raw_f6() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 58) as i64) >> 58;
            assert!(s.get_f6() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_0::new(&mut c[..]); m.set_f6(v); }
            assert!(updated::<false>(&b[3..5], &c[3..5], 6, 6, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_0::new(&mut c[..]); m.set_raw_f6(r); }
            assert!(updated::<false>(&b[3..5], &c[3..5], 6, 6, r as u64) && others(&b, &c, 3, 5), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 5 && v as i64 <= (1u64 << 5) as i64 - 1 || 6 == 64 {
                let mut c = b;
                { let mut m = S6_0::new(&mut c[..]); m.set_f6(v); }
                assert!(S6_0::new(&c[..]).get_f6() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[4..6], 6, 10);
            assert!(s.get_raw_f10() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 54) as i64) >> 54;
            assert!(s.get_f10() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_0::new(&mut c[..]); m.set_f10(v); }
            assert!(updated::<false>(&b[4..6], &c[4..6], 6, 10, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_0::new(&mut c[..]); m.set_raw_f10(r); }
            assert!(updated::<false>(&b[4..6], &c[4..6], 6, 10, r as u64) && others(&b, &c, 4, 6), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 9 && v as i64 <= (1u64 << 9) as i64 - 1 || 10 == 64 {
                let mut c = b;
                { let mut m = S6_0::new(&mut c[..]); m.set_f10(v); }
                assert!(S6_0::new(&c[..]).get_f10() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[6..9], 6, 11);
            assert!(s.get_raw_f11() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 53) as i64) >> 53;
            assert!(s.get_f11() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_0::new(&mut c[..]); m.set_f11(v); }
            assert!(updated::<false>(&b[6..9], &c[6..9], 6, 11, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 9), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_0::new(&mut c[..]); m.set_raw_f11(r); }
            assert!(updated::<false>(&b[6..9], &c[6..9], 6, 11, r as u64) && others(&b, &c, 6, 9), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 10 && v as i64 <= (1u64 << 10) as i64 - 1 || 11 == 64 {
                let mut c = b;
                { let mut m = S6_0::new(&mut c[..]); m.set_f11(v); }
                assert!(S6_0::new(&c[..]).get_f11() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[8..11], 6, 12);
            assert!(s.get_raw_f12() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 52) as i64) >> 52;
            assert!(s.get_f12() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_0::new(&mut c[..]); m.set_f12(v); }
            assert!(updated::<false>(&b[8..11], &c[8..11], 6, 12, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 8, 11), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_0::new(&mut c[..]); m.set_raw_f12(r); }
            assert!(updated::<false>(&b[8..11], &c[8..11], 6, 12, r as u64) && others(&b, &c, 8, 11), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 11 && v as i64 <= (1u64 << 11) as i64 - 1 || 12 == 64 {
                let mut c = b;
                { let mut m = S6_0::new(&mut c[..]); m.set_f12(v); }
                assert!(S6_0::new(&c[..]).get_f12() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[10..13], 6, 13);
            assert!(s.get_raw_f13() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 51) as i64) >> 51;
            assert!(s.get_f13() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_0::new(&mut c[..]); m.set_f13(v); }
            assert!(updated::<false>(&b[10..13], &c[10..13], 6, 13, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_0::new(&mut c[..]); m.set_raw_f13(r); }
            assert!(updated::<false>(&b[10..13], &c[10..13], 6, 13, r as u64) && others(&b, &c, 10, 13), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 12 && v as i64 <= (1u64 << 12) as i64 - 1 || 13 == 64 {
                let mut c = b;
                { let mut m = S6_0::new(&mut c[..]); m.set_f13(v); }
                assert!(S6_0::new(&c[..]).get_f13() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o6_g1() {
        use crate::ilet::*;
        const N: usize = 23;
        assert!(<S6_1<()> as FixedSize>::SIZE == N && SIZE_S6_1 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S6_1::new(&b[..]);
        {
            let raw = field::<false>(&b[0..3], 6, 14);
            assert!(s.get_raw_f14() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 50) as i64) >> 50;
            assert!(s.get_f14() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_1::new(&mut c[..]); m.set_f14(v); }
            assert!(updated::<false>(&b[0..3], &c[0..3], 6, 14, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_1::new(&mut c[..]); m.set_raw_f14(r); }
            assert!(updated::<false>(&b[0..3], &c[0..3], 6, 14, r as u64) && others(&b, &c, 0, 3), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 13 && v as i64 <= (1u64 << 13) as i64 - 1 || 14 == 64 {
                let mut c = b;
                { let mut m = S6_1::new(&mut c[..]); m.set_f14(v); }
                assert!(S6_1::new(&c[..]).get_f14() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[2..5], 6, 15);
            assert!(s.get_raw_f15() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 49) as i64) >> 49;
            assert!(s.get_f15() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_1::new(&mut c[..]); m.set_f15(v); }
            assert!(updated::<false>(&b[2..5], &c[2..5], 6, 15, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_1::new(&mut c[..]); m.set_raw_f15(r); }
            assert!(updated::<false>(&b[2..5], &c[2..5], 6, 15, r as u64) && others(&b, &c, 2, 5), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 14 && v as i64 <= (1u64 << 14) as i64 - 1 || 15 == 64 {
                let mut c = b;
                { let mut m = S6_1::new(&mut c[..]); m.set_f15(v); }
                assert!(S6_1::new(&c[..]).get_f15() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[4..7], 6, 18);
            assert!(s.get_raw_f18() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 46) as i64) >> 46;
            assert!(s.get_f18() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_1::new(&mut c[..]); m.set_f18(v); }
            assert!(updated::<false>(&b[4..7], &c[4..7], 6, 18, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_1::new(&mut c[..]); m.set_raw_f18(r); }
            assert!(updated::<false>(&b[4..7], &c[4..7], 6, 18, r as u64) && others(&b, &c, 4, 7), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 17 && v as i64 <= (1u64 << 17) as i64 - 1 || 18 == 64 {
                let mut c = b;
                { let mut m = S6_1::new(&mut c[..]); m.set_f18(v); }
                assert!(S6_1::new(&c[..]).get_f18() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[7..11], 6, 19);
            assert!(s.get_raw_f19() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 45) as i64) >> 45;
            assert!(s.get_f19() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_1::new(&mut c[..]); m.set_f19(v); }
            assert!(updated::<false>(&b[7..11], &c[7..11], 6, 19, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 11), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_1::new(&mut c[..]); m.set_raw_f19(r); }
            assert!(updated::<false>(&b[7..11], &c[7..11], 6, 19, r as u64) && others(&b, &c, 7, 11), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 18 && v as i64 <= (1u64 << 18) as i64 - 1 || 19 == 64 {
                let mut c = b;
                { let mut m = S6_1::new(&mut c[..]); m.set_f19(v); }
                assert!(S6_1::new(&c[..]).get_f19() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[10..14], 6, 20);
            assert!(s.get_raw_f20() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 44) as i64) >> 44;
            assert!(s.get_f20() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_1::new(&mut c[..]); m.set_f20(v); }
            assert!(updated::<false>(&b[10..14], &c[10..14], 6, 20, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 14), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_1::new(&mut c[..]); m.set_raw_f20(r); }
            assert!(updated::<false>(&b[10..14], &c[10..14], 6, 20, r as u64) && others(&b, &c, 10, 14), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 19 && v as i64 <= (1u64 << 19) as i64 - 1 || 20 == 64 {
                let mut c = b;
                { let mut m = S6_1::new(&mut c[..]); m.set_f20(v); }
                assert!(S6_1::new(&c[..]).get_f20() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[13..17], 6, 21);
            assert!(s.get_raw_f21() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 43) as i64) >> 43;
            assert!(s.get_f21() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_1::new(&mut c[..]); m.set_f21(v); }
            assert!(updated::<false>(&b[13..17], &c[13..17], 6, 21, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 13, 17), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_1::new(&mut c[..]); m.set_raw_f21(r); }
            assert!(updated::<false>(&b[13..17], &c[13..17], 6, 21, r as u64) && others(&b, &c, 13, 17), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 20 && v as i64 <= (1u64 << 20) as i64 - 1 || 21 == 64 {
                let mut c = b;
                { let mut m = S6_1::new(&mut c[..]); m.set_f21(v); }
                assert!(S6_1::new(&c[..]).get_f21() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[16..20], 6, 22);
            assert!(s.get_raw_f22() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 42) as i64) >> 42;
            assert!(s.get_f22() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_1::new(&mut c[..]); m.set_f22(v); }
            assert!(updated::<false>(&b[16..20], &c[16..20], 6, 22, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_1::new(&mut c[..]); m.set_raw_f22(r); }
            assert!(updated::<false>(&b[16..20], &c[16..20], 6, 22, r as u64) && others(&b, &c, 16, 20), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 21 && v as i64 <= (1u64 << 21) as i64 - 1 || 22 == 64 {
                let mut c = b;
                { let mut m = S6_1::new(&mut c[..]); m.set_f22(v); }
                assert!(S6_1::new(&c[..]).get_f22() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[19..23], 6, 23);
            assert!(s.get_raw_f23() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 41) as i64) >> 41;
            assert!(s.get_f23() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_1::new(&mut c[..]); m.set_f23(v); }
            assert!(updated::<false>(&b[19..23], &c[19..23], 6, 23, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 19, 23), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_1::new(&mut c[..]); m.set_raw_f23(r); }
            assert!(updated::<false>(&b[19..23], &c[19..23], 6, 23, r as u64) && others(&b, &c, 19, 23), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 22 && v as i64 <= (1u64 << 22) as i64 - 1 || 23 == 64 {
                let mut c = b;
                { let mut m = S6_1::new(&mut c[..]); m.set_f23(v); }
                assert!(S6_1::new(&c[..]).get_f23() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o6_g2() {
        use crate::ilet::*;
        const N: usize = 35;
        assert!(<S6_2<()> as FixedSize>::SIZE == N && SIZE_S6_2 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S6_2::new(&b[..]);
        {
            let raw = field::<false>(&b[0..4], 6, 26);
            assert!(s.get_raw_f26() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 38) as i64) >> 38;
            assert!(s.get_f26() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_2::new(&mut c[..]); m.set_f26(v); }
            assert!(updated::<false>(&b[0..4], &c[0..4], 6, 26, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_2::new(&mut c[..]); m.set_raw_f26(r); }
            assert!(updated::<false>(&b[0..4], &c[0..4], 6, 26, r as u64) && others(&b, &c, 0, 4), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 25 && v as i64 <= (1u64 << 25) as i64 - 1 || 26 == 64 {
                let mut c = b;
                { let mut m = S6_2::new(&mut c[..]); m.set_f26(v); }
                assert!(S6_2::new(&c[..]).get_f26() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[4..9], 6, 27);
            assert!(s.get_raw_f27() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 37) as i64) >> 37;
            assert!(s.get_f27() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_2::new(&mut c[..]); m.set_f27(v); }
            assert!(updated::<false>(&b[4..9], &c[4..9], 6, 27, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 9), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_2::new(&mut c[..]); m.set_raw_f27(r); }
            assert!(updated::<false>(&b[4..9], &c[4..9], 6, 27, r as u64) && others(&b, &c, 4, 9), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 26 && v as i64 <= (1u64 << 26) as i64 - 1 || 27 == 64 {
                let mut c = b;
                { let mut m = S6_2::new(&mut c[..]); m.set_f27(v); }
                assert!(S6_2::new(&c[..]).get_f27() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[8..13], 6, 28);
            assert!(s.get_raw_f28() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 36) as i64) >> 36;
            assert!(s.get_f28() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_2::new(&mut c[..]); m.set_f28(v); }
            assert!(updated::<false>(&b[8..13], &c[8..13], 6, 28, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 8, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_2::new(&mut c[..]); m.set_raw_f28(r); }
            assert!(updated::<false>(&b[8..13], &c[8..13], 6, 28, r as u64) && others(&b, &c, 8, 13), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 27 && v as i64 <= (1u64 << 27) as i64 - 1 || 28 == 64 {
                let mut c = b;
                { let mut m = S6_2::new(&mut c[..]); m.set_f28(v); }
                assert!(S6_2::new(&c[..]).get_f28() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[12..17], 6, 29);
            assert!(s.get_raw_f29() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 35) as i64) >> 35;
            assert!(s.get_f29() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_2::new(&mut c[..]); m.set_f29(v); }
            assert!(updated::<false>(&b[12..17], &c[12..17], 6, 29, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 17), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_2::new(&mut c[..]); m.set_raw_f29(r); }
            assert!(updated::<false>(&b[12..17], &c[12..17], 6, 29, r as u64) && others(&b, &c, 12, 17), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 28 && v as i64 <= (1u64 << 28) as i64 - 1 || 29 == 64 {
                let mut c = b;
                { let mut m = S6_2::new(&mut c[..]); m.set_f29(v); }
                assert!(S6_2::new(&c[..]).get_f29() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[16..21], 6, 30);
            assert!(s.get_raw_f30() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 34) as i64) >> 34;
            assert!(s.get_f30() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_2::new(&mut c[..]); m.set_f30(v); }
            assert!(updated::<false>(&b[16..21], &c[16..21], 6, 30, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 21), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_2::new(&mut c[..]); m.set_raw_f30(r); }
            assert!(updated::<false>(&b[16..21], &c[16..21], 6, 30, r as u64) && others(&b, &c, 16, 21), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 29 && v as i64 <= (1u64 << 29) as i64 - 1 || 30 == 64 {
                let mut c = b;
                { let mut m = S6_2::new(&mut c[..]); m.set_f30(v); }
                assert!(S6_2::new(&c[..]).get_f30() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[20..25], 6, 31);
            assert!(s.get_raw_f31() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 33) as i64) >> 33;
            assert!(s.get_f31() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_2::new(&mut c[..]); m.set_f31(v); }
            assert!(updated::<false>(&b[20..25], &c[20..25], 6, 31, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 25), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_2::new(&mut c[..]); m.set_raw_f31(r); }
            assert!(updated::<false>(&b[20..25], &c[20..25], 6, 31, r as u64) && others(&b, &c, 20, 25), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 30 && v as i64 <= (1u64 << 30) as i64 - 1 || 31 == 64 {
                let mut c = b;
                { let mut m = S6_2::new(&mut c[..]); m.set_f31(v); }
                assert!(S6_2::new(&c[..]).get_f31() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[24..29], 6, 34);
            assert!(s.get_raw_f34() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 30) as i64) >> 30;
            assert!(s.get_f34() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_2::new(&mut c[..]); m.set_f34(v); }
            assert!(updated::<false>(&b[24..29], &c[24..29], 6, 34, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 24, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_2::new(&mut c[..]); m.set_raw_f34(r); }
            assert!(updated::<false>(&b[24..29], &c[24..29], 6, 34, r as u64) && others(&b, &c, 24, 29), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 33 && v as i64 <= (1u64 << 33) as i64 - 1 || 34 == 64 {
                let mut c = b;
                { let mut m = S6_2::new(&mut c[..]); m.set_f34(v); }
                assert!(S6_2::new(&c[..]).get_f34() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[29..35], 6, 35);
            assert!(s.get_raw_f35() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 29) as i64) >> 29;
            assert!(s.get_f35() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_2::new(&mut c[..]); m.set_f35(v); }
            assert!(updated::<false>(&b[29..35], &c[29..35], 6, 35, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 29, 35), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_2::new(&mut c[..]); m.set_raw_f35(r); }
            assert!(updated::<false>(&b[29..35], &c[29..35], 6, 35, r as u64) && others(&b, &c, 29, 35), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 34 && v as i64 <= (1u64 << 34) as i64 - 1 || 35 == 64 {
                let mut c = b;
                { let mut m = S6_2::new(&mut c[..]); m.set_f35(v); }
                assert!(S6_2::new(&c[..]).get_f35() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o6_g3() {
        use crate::ilet::*;
        const N: usize = 45;
        assert!(<S6_3<()> as FixedSize>::SIZE == N && SIZE_S6_3 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S6_3::new(&b[..]);
        {
            let raw = field::<false>(&b[0..6], 6, 36);
            assert!(s.get_raw_f36() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 28) as i64) >> 28;
            assert!(s.get_f36() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_3::new(&mut c[..]); m.set_f36(v); }
            assert!(updated::<false>(&b[0..6], &c[0..6], 6, 36, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_3::new(&mut c[..]); m.set_raw_f36(r); }
            assert!(updated::<false>(&b[0..6], &c[0..6], 6, 36, r as u64) && others(&b, &c, 0, 6), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 35 && v as i64 <= (1u64 << 35) as i64 - 1 || 36 == 64 {
                let mut c = b;
                { let mut m = S6_3::new(&mut c[..]); m.set_f36(v); }
                assert!(S6_3::new(&c[..]).get_f36() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[5..11], 6, 37);
            assert!(s.get_raw_f37() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 27) as i64) >> 27;
            assert!(s.get_f37() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_3::new(&mut c[..]); m.set_f37(v); }
            assert!(updated::<false>(&b[5..11], &c[5..11], 6, 37, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 11), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_3::new(&mut c[..]); m.set_raw_f37(r); }
            assert!(updated::<false>(&b[5..11], &c[5..11], 6, 37, r as u64) && others(&b, &c, 5, 11), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 36 && v as i64 <= (1u64 << 36) as i64 - 1 || 37 == 64 {
                let mut c = b;
                { let mut m = S6_3::new(&mut c[..]); m.set_f37(v); }
                assert!(S6_3::new(&c[..]).get_f37() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[10..16], 6, 38);
            assert!(s.get_raw_f38() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 26) as i64) >> 26;
            assert!(s.get_f38() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_3::new(&mut c[..]); m.set_f38(v); }
            assert!(updated::<false>(&b[10..16], &c[10..16], 6, 38, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 16), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_3::new(&mut c[..]); m.set_raw_f38(r); }
            assert!(updated::<false>(&b[10..16], &c[10..16], 6, 38, r as u64) && others(&b, &c, 10, 16), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 37 && v as i64 <= (1u64 << 37) as i64 - 1 || 38 == 64 {
                let mut c = b;
                { let mut m = S6_3::new(&mut c[..]); m.set_f38(v); }
                assert!(S6_3::new(&c[..]).get_f38() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[15..21], 6, 39);
            assert!(s.get_raw_f39() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 25) as i64) >> 25;
            assert!(s.get_f39() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_3::new(&mut c[..]); m.set_f39(v); }
            assert!(updated::<false>(&b[15..21], &c[15..21], 6, 39, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 15, 21), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_3::new(&mut c[..]); m.set_raw_f39(r); }
            assert!(updated::<false>(&b[15..21], &c[15..21], 6, 39, r as u64) && others(&b, &c, 15, 21), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 38 && v as i64 <= (1u64 << 38) as i64 - 1 || 39 == 64 {
                let mut c = b;
                { let mut m = S6_3::new(&mut c[..]); m.set_f39(v); }
                assert!(S6_3::new(&c[..]).get_f39() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[20..26], 6, 41);
            assert!(s.get_raw_f41() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 23) as i64) >> 23;
            assert!(s.get_f41() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_3::new(&mut c[..]); m.set_f41(v); }
            assert!(updated::<false>(&b[20..26], &c[20..26], 6, 41, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 26), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_3::new(&mut c[..]); m.set_raw_f41(r); }
            assert!(updated::<false>(&b[20..26], &c[20..26], 6, 41, r as u64) && others(&b, &c, 20, 26), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 40 && v as i64 <= (1u64 << 40) as i64 - 1 || 41 == 64 {
                let mut c = b;
                { let mut m = S6_3::new(&mut c[..]); m.set_f41(v); }
                assert!(S6_3::new(&c[..]).get_f41() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[26..32], 6, 42);
            assert!(s.get_raw_f42() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 22) as i64) >> 22;
            assert!(s.get_f42() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_3::new(&mut c[..]); m.set_f42(v); }
            assert!(updated::<false>(&b[26..32], &c[26..32], 6, 42, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 26, 32), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_3::new(&mut c[..]); m.set_raw_f42(r); }
            assert!(updated::<false>(&b[26..32], &c[26..32], 6, 42, r as u64) && others(&b, &c, 26, 32), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 41 && v as i64 <= (1u64 << 41) as i64 - 1 || 42 == 64 {
                let mut c = b;
                { let mut m = S6_3::new(&mut c[..]); m.set_f42(v); }
                assert!(S6_3::new(&c[..]).get_f42() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[32..39], 6, 43);
            assert!(s.get_raw_f43() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 21) as i64) >> 21;
            assert!(s.get_f43() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_3::new(&mut c[..]); m.set_f43(v); }
            assert!(updated::<false>(&b[32..39], &c[32..39], 6, 43, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 32, 39), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_3::new(&mut c[..]); m.set_raw_f43(r); }
            assert!(updated::<false>(&b[32..39], &c[32..39], 6, 43, r as u64) && others(&b, &c, 32, 39), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 42 && v as i64 <= (1u64 << 42) as i64 - 1 || 43 == 64 {
                let mut c = b;
                { let mut m = S6_3::new(&mut c[..]); m.set_f43(v); }
                assert!(S6_3::new(&c[..]).get_f43() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[38..45], 6, 44);
            assert!(s.get_raw_f44() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 20) as i64) >> 20;
            assert!(s.get_f44() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_3::new(&mut c[..]); m.set_f44(v); }
            assert!(updated::<false>(&b[38..45], &c[38..45], 6, 44, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 38, 45), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_3::new(&mut c[..]); m.set_raw_f44(r); }
            assert!(updated::<false>(&b[38..45], &c[38..45], 6, 44, r as u64) && others(&b, &c, 38, 45), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 43 && v as i64 <= (1u64 << 43) as i64 - 1 || 44 == 64 {
                let mut c = b;
                { let mut m = S6_3::new(&mut c[..]); m.set_f44(v); }
                assert!(S6_3::new(&c[..]).get_f44() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o6_g4() {
        use crate::ilet::*;
        const N: usize = 53;
        assert!(<S6_4<()> as FixedSize>::SIZE == N && SIZE_S6_4 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S6_4::new(&b[..]);
        {
            let raw = field::<false>(&b[0..7], 6, 45);
            assert!(s.get_raw_f45() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 19) as i64) >> 19;
            assert!(s.get_f45() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_4::new(&mut c[..]); m.set_f45(v); }
            assert!(updated::<false>(&b[0..7], &c[0..7], 6, 45, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_4::new(&mut c[..]); m.set_raw_f45(r); }
            assert!(updated::<false>(&b[0..7], &c[0..7], 6, 45, r as u64) && others(&b, &c, 0, 7), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 44 && v as i64 <= (1u64 << 44) as i64 - 1 || 45 == 64 {
                let mut c = b;
                { let mut m = S6_4::new(&mut c[..]); m.set_f45(v); }
                assert!(S6_4::new(&c[..]).get_f45() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[6..13], 6, 46);
            assert!(s.get_raw_f46() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 18) as i64) >> 18;
            assert!(s.get_f46() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_4::new(&mut c[..]); m.set_f46(v); }
            assert!(updated::<false>(&b[6..13], &c[6..13], 6, 46, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_4::new(&mut c[..]); m.set_raw_f46(r); }
            assert!(updated::<false>(&b[6..13], &c[6..13], 6, 46, r as u64) && others(&b, &c, 6, 13), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 45 && v as i64 <= (1u64 << 45) as i64 - 1 || 46 == 64 {
                let mut c = b;
                { let mut m = S6_4::new(&mut c[..]); m.set_f46(v); }
                assert!(S6_4::new(&c[..]).get_f46() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[12..19], 6, 47);
            assert!(s.get_raw_f47() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 17) as i64) >> 17;
            assert!(s.get_f47() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_4::new(&mut c[..]); m.set_f47(v); }
            assert!(updated::<false>(&b[12..19], &c[12..19], 6, 47, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_4::new(&mut c[..]); m.set_raw_f47(r); }
            assert!(updated::<false>(&b[12..19], &c[12..19], 6, 47, r as u64) && others(&b, &c, 12, 19), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 46 && v as i64 <= (1u64 << 46) as i64 - 1 || 47 == 64 {
                let mut c = b;
                { let mut m = S6_4::new(&mut c[..]); m.set_f47(v); }
                assert!(S6_4::new(&c[..]).get_f47() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[18..25], 6, 48);
            assert!(s.get_raw_f48() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 16) as i64) >> 16;
            assert!(s.get_f48() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_4::new(&mut c[..]); m.set_f48(v); }
            assert!(updated::<false>(&b[18..25], &c[18..25], 6, 48, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 18, 25), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_4::new(&mut c[..]); m.set_raw_f48(r); }
            assert!(updated::<false>(&b[18..25], &c[18..25], 6, 48, r as u64) && others(&b, &c, 18, 25), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 47 && v as i64 <= (1u64 << 47) as i64 - 1 || 48 == 64 {
                let mut c = b;
                { let mut m = S6_4::new(&mut c[..]); m.set_f48(v); }
                assert!(S6_4::new(&c[..]).get_f48() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[24..31], 6, 49);
            assert!(s.get_raw_f49() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 15) as i64) >> 15;
            assert!(s.get_f49() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_4::new(&mut c[..]); m.set_f49(v); }
            assert!(updated::<false>(&b[24..31], &c[24..31], 6, 49, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 24, 31), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_4::new(&mut c[..]); m.set_raw_f49(r); }
            assert!(updated::<false>(&b[24..31], &c[24..31], 6, 49, r as u64) && others(&b, &c, 24, 31), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 48 && v as i64 <= (1u64 << 48) as i64 - 1 || 49 == 64 {
                let mut c = b;
                { let mut m = S6_4::new(&mut c[..]); m.set_f49(v); }
                assert!(S6_4::new(&c[..]).get_f49() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[31..38], 6, 50);
            assert!(s.get_raw_f50() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 14) as i64) >> 14;
            assert!(s.get_f50() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_4::new(&mut c[..]); m.set_f50(v); }
            assert!(updated::<false>(&b[31..38], &c[31..38], 6, 50, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 31, 38), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_4::new(&mut c[..]); m.set_raw_f50(r); }
            assert!(updated::<false>(&b[31..38], &c[31..38], 6, 50, r as u64) && others(&b, &c, 31, 38), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 49 && v as i64 <= (1u64 << 49) as i64 - 1 || 50 == 64 {
                let mut c = b;
                { let mut m = S6_4::new(&mut c[..]); m.set_f50(v); }
                assert!(S6_4::new(&c[..]).get_f50() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[38..46], 6, 51);
            assert!(s.get_raw_f51() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 13) as i64) >> 13;
            assert!(s.get_f51() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_4::new(&mut c[..]); m.set_f51(v); }
            assert!(updated::<false>(&b[38..46], &c[38..46], 6, 51, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 38, 46), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_4::new(&mut c[..]); m.set_raw_f51(r); }
            assert!(updated::<false>(&b[38..46], &c[38..46], 6, 51, r as u64) && others(&b, &c, 38, 46), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 50 && v as i64 <= (1u64 << 50) as i64 - 1 || 51 == 64 {
                let mut c = b;
                { let mut m = S6_4::new(&mut c[..]); m.set_f51(v); }
                assert!(S6_4::new(&c[..]).get_f51() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[45..53], 6, 52);
            assert!(s.get_raw_f52() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 12) as i64) >> 12;
            assert!(s.get_f52() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_4::new(&mut c[..]); m.set_f52(v); }
            assert!(updated::<false>(&b[45..53], &c[45..53], 6, 52, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 45, 53), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_4::new(&mut c[..]); m.set_raw_f52(r); }
            assert!(updated::<false>(&b[45..53], &c[45..53], 6, 52, r as u64) && others(&b, &c, 45, 53), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 51 && v as i64 <= (1u64 << 51) as i64 - 1 || 52 == 64 {
                let mut c = b;
                { let mut m = S6_4::new(&mut c[..]); m.set_f52(v); }
                assert!(S6_4::new(&c[..]).get_f52() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o6_g5() {
        use crate::ilet::*;
        const N: usize = 62;
        assert!(<S6_5<()> as FixedSize>::SIZE == N && SIZE_S6_5 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S6_5::new(&b[..]);
        {
            let raw = field::<false>(&b[0..8], 6, 53);
            assert!(s.get_raw_f53() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 11) as i64) >> 11;
            assert!(s.get_f53() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_5::new(&mut c[..]); m.set_f53(v); }
            assert!(updated::<false>(&b[0..8], &c[0..8], 6, 53, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_5::new(&mut c[..]); m.set_raw_f53(r); }
            assert!(updated::<false>(&b[0..8], &c[0..8], 6, 53, r as u64) && others(&b, &c, 0, 8), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 52 && v as i64 <= (1u64 << 52) as i64 - 1 || 53 == 64 {
                let mut c = b;
                { let mut m = S6_5::new(&mut c[..]); m.set_f53(v); }
                assert!(S6_5::new(&c[..]).get_f53() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[7..15], 6, 54);
            assert!(s.get_raw_f54() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 10) as i64) >> 10;
            assert!(s.get_f54() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_5::new(&mut c[..]); m.set_f54(v); }
            assert!(updated::<false>(&b[7..15], &c[7..15], 6, 54, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 15), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_5::new(&mut c[..]); m.set_raw_f54(r); }
            assert!(updated::<false>(&b[7..15], &c[7..15], 6, 54, r as u64) && others(&b, &c, 7, 15), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 53 && v as i64 <= (1u64 << 53) as i64 - 1 || 54 == 64 {
                let mut c = b;
                { let mut m = S6_5::new(&mut c[..]); m.set_f54(v); }
                assert!(S6_5::new(&c[..]).get_f54() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[14..22], 6, 55);
            assert!(s.get_raw_f55() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 9) as i64) >> 9;
            assert!(s.get_f55() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_5::new(&mut c[..]); m.set_f55(v); }
            assert!(updated::<false>(&b[14..22], &c[14..22], 6, 55, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 14, 22), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_5::new(&mut c[..]); m.set_raw_f55(r); }
            assert!(updated::<false>(&b[14..22], &c[14..22], 6, 55, r as u64) && others(&b, &c, 14, 22), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 54 && v as i64 <= (1u64 << 54) as i64 - 1 || 55 == 64 {
                let mut c = b;
                { let mut m = S6_5::new(&mut c[..]); m.set_f55(v); }
                assert!(S6_5::new(&c[..]).get_f55() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[21..29], 6, 58);
            assert!(s.get_raw_f58() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 6) as i64) >> 6;
            assert!(s.get_f58() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_5::new(&mut c[..]); m.set_f58(v); }
            assert!(updated::<false>(&b[21..29], &c[21..29], 6, 58, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 21, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_5::new(&mut c[..]); m.set_raw_f58(r); }
            assert!(updated::<false>(&b[21..29], &c[21..29], 6, 58, r as u64) && others(&b, &c, 21, 29), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 57 && v as i64 <= (1u64 << 57) as i64 - 1 || 58 == 64 {
                let mut c = b;
                { let mut m = S6_5::new(&mut c[..]); m.set_f58(v); }
                assert!(S6_5::new(&c[..]).get_f58() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[29..38], 6, 59);
            assert!(s.get_raw_f59() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 5) as i64) >> 5;
            assert!(s.get_f59() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_5::new(&mut c[..]); m.set_f59(v); }
            assert!(updated::<false>(&b[29..38], &c[29..38], 6, 59, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 29, 38), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_5::new(&mut c[..]); m.set_raw_f59(r); }
            assert!(updated::<false>(&b[29..38], &c[29..38], 6, 59, r as u64) && others(&b, &c, 29, 38), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 58 && v as i64 <= (1u64 << 58) as i64 - 1 || 59 == 64 {
                let mut c = b;
                { let mut m = S6_5::new(&mut c[..]); m.set_f59(v); }
                assert!(S6_5::new(&c[..]).get_f59() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[37..46], 6, 60);
            assert!(s.get_raw_f60() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 4) as i64) >> 4;
            assert!(s.get_f60() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_5::new(&mut c[..]); m.set_f60(v); }
            assert!(updated::<false>(&b[37..46], &c[37..46], 6, 60, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 37, 46), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_5::new(&mut c[..]); m.set_raw_f60(r); }
            assert!(updated::<false>(&b[37..46], &c[37..46], 6, 60, r as u64) && others(&b, &c, 37, 46), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 59 && v as i64 <= (1u64 << 59) as i64 - 1 || 60 == 64 {
                let mut c = b;
                { let mut m = S6_5::new(&mut c[..]); m.set_f60(v); }
                assert!(S6_5::new(&c[..]).get_f60() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[45..54], 6, 61);
            assert!(s.get_raw_f61() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 3) as i64) >> 3;
            assert!(s.get_f61() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_5::new(&mut c[..]); m.set_f61(v); }
            assert!(updated::<false>(&b[45..54], &c[45..54], 6, 61, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 45, 54), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_5::new(&mut c[..]); m.set_raw_f61(r); }
            assert!(updated::<false>(&b[45..54], &c[45..54], 6, 61, r as u64) && others(&b, &c, 45, 54), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 60 && v as i64 <= (1u64 << 60) as i64 - 1 || 61 == 64 {
                let mut c = b;
                { let mut m = S6_5::new(&mut c[..]); m.set_f61(v); }
                assert!(S6_5::new(&c[..]).get_f61() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[53..62], 6, 62);
            assert!(s.get_raw_f62() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 2) as i64) >> 2;
            assert!(s.get_f62() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_5::new(&mut c[..]); m.set_f62(v); }
            assert!(updated::<false>(&b[53..62], &c[53..62], 6, 62, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 53, 62), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_5::new(&mut c[..]); m.set_raw_f62(r); }
            assert!(updated::<false>(&b[53..62], &c[53..62], 6, 62, r as u64) && others(&b, &c, 53, 62), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 61 && v as i64 <= (1u64 << 61) as i64 - 1 || 62 == 64 {
                let mut c = b;
                { let mut m = S6_5::new(&mut c[..]); m.set_f62(v); }
                assert!(S6_5::new(&c[..]).get_f62() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o7_g0() {
        use crate::ilet::*;
        const N: usize = 13;
        assert!(<S7_0<()> as FixedSize>::SIZE == N && SIZE_S7_0 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S7_0::new(&b[..]);
        {
            let raw = field::<false>(&b[0..2], 7, 2);
            assert!(s.get_raw_f2() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 62) as i64) >> 62;
            assert!(s.get_f2() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_0::new(&mut c[..]); m.set_f2(v); }
            assert!(updated::<false>(&b[0..2], &c[0..2], 7, 2, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_0::new(&mut c[..]); m.set_raw_f2(r); }
            assert!(updated::<false>(&b[0..2], &c[0..2], 7, 2, r as u64) && others(&b, &c, 0, 2), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 1 && v as i64 <= (1u64 << 1) as i64 - 1 || 2 == 64 {
                let mut c = b;
                { let mut m = S7_0::new(&mut c[..]); m.set_f2(v); }
                assert!(S7_0::new(&c[..]).get_f2() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[1..3], 7, 4);
            assert!(s.get_raw_f4() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 60) as i64) >> 60;
            assert!(s.get_f4() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_0::new(&mut c[..]); m.set_f4(v); }
            assert!(updated::<false>(&b[1..3], &c[1..3], 7, 4, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_0::new(&mut c[..]); m.set_raw_f4(r); }
            assert!(updated::<false>(&b[1..3], &c[1..3], 7, 4, r as u64) && others(&b, &c, 1, 3), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 3 && v as i64 <= (1u64 << 3) as i64 - 1 || 4 == 64 {
                let mut c = b;
                { let mut m = S7_0::new(&mut c[..]); m.set_f4(v); }
                assert!(S7_0::new(&c[..]).get_f4() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[2..4], 7, 5);
            assert!(s.get_raw_f5() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 59) as i64) >> 59;
            assert!(s.get_f5() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_0::new(&mut c[..]); m.set_f5(v); }
            assert!(updated::<false>(&b[2..4], &c[2..4], 7, 5, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_0::new(&mut c[..]); m.set_raw_f5(r); }
            assert!(updated::<false>(&b[2..4], &c[2..4], 7, 5, r as u64) && others(&b, &c, 2, 4), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 4 && v as i64 <= (1u64 << 4) as i64 - 1 || 5 == 64 {
                let mut c = b;
                { let mut m = S7_0::new(&mut c[..]); m.set_f5(v); }
                assert!(S7_0::new(&c[..]).get_f5() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[3..5], 7, 6);
            assert!(s.get_raw_f6() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 58) as i64) >> 58;
            assert!(s.get_f6() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_0::new(&mut c[..]); m.set_f6(v); }
            assert!(updated::<false>(&b[3..5], &c[3..5], 7, 6, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_0::new(&mut c[..]); m.set_raw_f6(r); }
            assert!(updated::<false>(&b[3..5], &c[3..5], 7, 6, r as u64) && others(&b, &c, 3, 5), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 5 && v as i64 <= (1u64 << 5) as i64 - 1 || 6 == 64 {
                let mut c = b;
                { let mut m = S7_0::new(&mut c[..]); m.set_f6(v); }
                assert!(S7_0::new(&c[..]).get_f6() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[4..7], 7, 10);
            assert!(s.get_raw_f10() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 54) as i64) >> 54;
            assert!(s.get_f10() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_0::new(&mut c[..]); m.set_f10(v); }
            assert!(updated::<false>(&b[4..7], &c[4..7], 7, 10, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_0::new(&mut c[..]); m.set_raw_f10(r); }
            assert!(updated::<false>(&b[4..7], &c[4..7], 7, 10, r as u64) && others(&b, &c, 4, 7), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 9 && v as i64 <= (1u64 << 9) as i64 - 1 || 10 == 64 {
                let mut c = b;
                { let mut m = S7_0::new(&mut c[..]); m.set_f10(v); }
                assert!(S7_0::new(&c[..]).get_f10() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[6..9], 7, 11);
            assert!(s.get_raw_f11() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 53) as i64) >> 53;
            assert!(s.get_f11() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_0::new(&mut c[..]); m.set_f11(v); }
            assert!(updated::<false>(&b[6..9], &c[6..9], 7, 11, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 9), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_0::new(&mut c[..]); m.set_raw_f11(r); }
            assert!(updated::<false>(&b[6..9], &c[6..9], 7, 11, r as u64) && others(&b, &c, 6, 9), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 10 && v as i64 <= (1u64 << 10) as i64 - 1 || 11 == 64 {
                let mut c = b;
                { let mut m = S7_0::new(&mut c[..]); m.set_f11(v); }
                assert!(S7_0::new(&c[..]).get_f11() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[8..11], 7, 12);
            assert!(s.get_raw_f12() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 52) as i64) >> 52;
            assert!(s.get_f12() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_0::new(&mut c[..]); m.set_f12(v); }
            assert!(updated::<false>(&b[8..11], &c[8..11], 7, 12, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 8, 11), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_0::new(&mut c[..]); m.set_raw_f12(r); }
            assert!(updated::<false>(&b[8..11], &c[8..11], 7, 12, r as u64) && others(&b, &c, 8, 11), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 11 && v as i64 <= (1u64 << 11) as i64 - 1 || 12 == 64 {
                let mut c = b;
                { let mut m = S7_0::new(&mut c[..]); m.set_f12(v); }
                assert!(S7_0::new(&c[..]).get_f12() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[10..13], 7, 13);
            assert!(s.get_raw_f13() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 51) as i64) >> 51;
            assert!(s.get_f13() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_0::new(&mut c[..]); m.set_f13(v); }
            assert!(updated::<false>(&b[10..13], &c[10..13], 7, 13, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_0::new(&mut c[..]); m.set_raw_f13(r); }
            assert!(updated::<false>(&b[10..13], &c[10..13], 7, 13, r as u64) && others(&b, &c, 10, 13), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 12 && v as i64 <= (1u64 << 12) as i64 - 1 || 13 == 64 {
                let mut c = b;
                { let mut m = S7_0::new(&mut c[..]); m.set_f13(v); }
                assert!(S7_0::new(&c[..]).get_f13() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o7_g1() {
        use crate::ilet::*;
        const N: usize = 23;
        assert!(<S7_1<()> as FixedSize>::SIZE == N && SIZE_S7_1 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S7_1::new(&b[..]);
        {
            let raw = field::<false>(&b[0..3], 7, 14);
            assert!(s.get_raw_f14() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 50) as i64) >> 50;
            assert!(s.get_f14() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_1::new(&mut c[..]); m.set_f14(v); }
            assert!(updated::<false>(&b[0..3], &c[0..3], 7, 14, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_1::new(&mut c[..]); m.set_raw_f14(r); }
            assert!(updated::<false>(&b[0..3], &c[0..3], 7, 14, r as u64) && others(&b, &c, 0, 3), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 13 && v as i64 <= (1u64 << 13) as i64 - 1 || 14 == 64 {
                let mut c = b;
                { let mut m = S7_1::new(&mut c[..]); m.set_f14(v); }
                assert!(S7_1::new(&c[..]).get_f14() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[2..5], 7, 15);
            assert!(s.get_raw_f15() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 49) as i64) >> 49;
            assert!(s.get_f15() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_1::new(&mut c[..]); m.set_f15(v); }
            assert!(updated::<false>(&b[2..5], &c[2..5], 7, 15, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_1::new(&mut c[..]); m.set_raw_f15(r); }
            assert!(updated::<false>(&b[2..5], &c[2..5], 7, 15, r as u64) && others(&b, &c, 2, 5), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 14 && v as i64 <= (1u64 << 14) as i64 - 1 || 15 == 64 {
                let mut c = b;
                { let mut m = S7_1::new(&mut c[..]); m.set_f15(v); }
                assert!(S7_1::new(&c[..]).get_f15() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[4..8], 7, 18);
            assert!(s.get_raw_f18() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 46) as i64) >> 46;
            assert!(s.get_f18() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_1::new(&mut c[..]); m.set_f18(v); }
            assert!(updated::<false>(&b[4..8], &c[4..8], 7, 18, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_1::new(&mut c[..]); m.set_raw_f18(r); }
            assert!(updated::<false>(&b[4..8], &c[4..8], 7, 18, r as u64) && others(&b, &c, 4, 8), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 17 && v as i64 <= (1u64 << 17) as i64 - 1 || 18 == 64 {
                let mut c = b;
                { let mut m = S7_1::new(&mut c[..]); m.set_f18(v); }
                assert!(S7_1::new(&c[..]).get_f18() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[7..11], 7, 19);
            assert!(s.get_raw_f19() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 45) as i64) >> 45;
            assert!(s.get_f19() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_1::new(&mut c[..]); m.set_f19(v); }
            assert!(updated::<false>(&b[7..11], &c[7..11], 7, 19, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 11), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_1::new(&mut c[..]); m.set_raw_f19(r); }
            assert!(updated::<false>(&b[7..11], &c[7..11], 7, 19, r as u64) && others(&b, &c, 7, 11), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 18 && v as i64 <= (1u64 << 18) as i64 - 1 || 19 == 64 {
                let mut c = b;
                { let mut m = S7_1::new(&mut c[..]); m.set_f19(v); }
                assert!(S7_1::new(&c[..]).get_f19() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[10..14], 7, 20);
            assert!(s.get_raw_f20() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 44) as i64) >> 44;
            assert!(s.get_f20() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_1::new(&mut c[..]); m.set_f20(v); }
            assert!(updated::<false>(&b[10..14], &c[10..14], 7, 20, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 14), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_1::new(&mut c[..]); m.set_raw_f20(r); }
            assert!(updated::<false>(&b[10..14], &c[10..14], 7, 20, r as u64) && others(&b, &c, 10, 14), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 19 && v as i64 <= (1u64 << 19) as i64 - 1 || 20 == 64 {
                let mut c = b;
                { let mut m = S7_1::new(&mut c[..]); m.set_f20(v); }
                assert!(S7_1::new(&c[..]).get_f20() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[13..17], 7, 21);
            assert!(s.get_raw_f21() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 43) as i64) >> 43;
            assert!(s.get_f21() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_1::new(&mut c[..]); m.set_f21(v); }
            assert!(updated::<false>(&b[13..17], &c[13..17], 7, 21, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 13, 17), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_1::new(&mut c[..]); m.set_raw_f21(r); }
            assert!(updated::<false>(&b[13..17], &c[13..17], 7, 21, r as u64) && others(&b, &c, 13, 17), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 20 && v as i64 <= (1u64 << 20) as i64 - 1 || 21 == 64 {
                let mut c = b;
                { let mut m = S7_1::new(&mut c[..]); m.set_f21(v); }
                assert!(S7_1::new(&c[..]).get_f21() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[16..20], 7, 22);
            assert!(s.get_raw_f22() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 42) as i64) >> 42;
            assert!(s.get_f22() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_1::new(&mut c[..]); m.set_f22(v); }
            assert!(updated::<false>(&b[16..20], &c[16..20], 7, 22, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_1::new(&mut c[..]); m.set_raw_f22(r); }
            assert!(updated::<false>(&b[16..20], &c[16..20], 7, 22, r as u64) && others(&b, &c, 16, 20), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 21 && v as i64 <= (1u64 << 21) as i64 - 1 || 22 == 64 {
                let mut c = b;
                { let mut m = S7_1::new(&mut c[..]); m.set_f22(v); }
                assert!(S7_1::new(&c[..]).get_f22() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[19..23], 7, 23);
            assert!(s.get_raw_f23() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 41) as i64) >> 41;
            assert!(s.get_f23() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_1::new(&mut c[..]); m.set_f23(v); }
            assert!(updated::<false>(&b[19..23], &c[19..23], 7, 23, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 19, 23), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_1::new(&mut c[..]); m.set_raw_f23(r); }
            assert!(updated::<false>(&b[19..23], &c[19..23], 7, 23, r as u64) && others(&b, &c, 19, 23), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 22 && v as i64 <= (1u64 << 22) as i64 - 1 || 23 == 64 {
                let mut c = b;
                { let mut m = S7_1::new(&mut c[..]); m.set_f23(v); }
                assert!(S7_1::new(&c[..]).get_f23() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o7_g2() {
        use crate::ilet::*;
        const N: usize = 35;
        assert!(<S7_2<()> as FixedSize>::SIZE == N && SIZE_S7_2 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S7_2::new(&b[..]);
        {
            let raw = field::<false>(&b[0..5], 7, 26);
            assert!(s.get_raw_f26() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 38) as i64) >> 38;
            assert!(s.get_f26() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_2::new(&mut c[..]); m.set_f26(v); }
            assert!(updated::<false>(&b[0..5], &c[0..5], 7, 26, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_2::new(&mut c[..]); m.set_raw_f26(r); }
            assert!(updated::<false>(&b[0..5], &c[0..5], 7, 26, r as u64) && others(&b, &c, 0, 5), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 25 && v as i64 <= (1u64 << 25) as i64 - 1 || 26 == 64 {
                let mut c = b;
                { let mut m = S7_2::new(&mut c[..]); m.set_f26(v); }
                assert!(S7_2::new(&c[..]).get_f26() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[4..9], 7, 27);
            assert!(s.get_raw_f27() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 37) as i64) >> 37;
            assert!(s.get_f27() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_2::new(&mut c[..]); m.set_f27(v); }
            assert!(updated::<false>(&b[4..9], &c[4..9], 7, 27, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 9), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_2::new(&mut c[..]); m.set_raw_f27(r); }
            assert!(updated::<false>(&b[4..9], &c[4..9], 7, 27, r as u64) && others(&b, &c, 4, 9), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 26 && v as i64 <= (1u64 << 26) as i64 - 1 || 27 == 64 {
                let mut c = b;
                { let mut m = S7_2::new(&mut c[..]); m.set_f27(v); }
                assert!(S7_2::new(&c[..]).get_f27() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[8..13], 7, 28);
            assert!(s.get_raw_f28() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 36) as i64) >> 36;
            assert!(s.get_f28() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_2::new(&mut c[..]); m.set_f28(v); }
            assert!(updated::<false>(&b[8..13], &c[8..13], 7, 28, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 8, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_2::new(&mut c[..]); m.set_raw_f28(r); }
            assert!(updated::<false>(&b[8..13], &c[8..13], 7, 28, r as u64) && others(&b, &c, 8, 13), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 27 && v as i64 <= (1u64 << 27) as i64 - 1 || 28 == 64 {
                let mut c = b;
                { let mut m = S7_2::new(&mut c[..]); m.set_f28(v); }
                assert!(S7_2::new(&c[..]).get_f28() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[12..17], 7, 29);
            assert!(s.get_raw_f29() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 35) as i64) >> 35;
            assert!(s.get_f29() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_2::new(&mut c[..]); m.set_f29(v); }
            assert!(updated::<false>(&b[12..17], &c[12..17], 7, 29, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 17), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_2::new(&mut c[..]); m.set_raw_f29(r); }
            assert!(updated::<false>(&b[12..17], &c[12..17], 7, 29, r as u64) && others(&b, &c, 12, 17), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 28 && v as i64 <= (1u64 << 28) as i64 - 1 || 29 == 64 {
                let mut c = b;
                { let mut m = S7_2::new(&mut c[..]); m.set_f29(v); }
                assert!(S7_2::new(&c[..]).get_f29() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[16..21], 7, 30);
            assert!(s.get_raw_f30() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 34) as i64) >> 34;
            assert!(s.get_f30() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_2::new(&mut c[..]); m.set_f30(v); }
            assert!(updated::<false>(&b[16..21], &c[16..21], 7, 30, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 21), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_2::new(&mut c[..]); m.set_raw_f30(r); }
            assert!(updated::<false>(&b[16..21], &c[16..21], 7, 30, r as u64) && others(&b, &c, 16, 21), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 29 && v as i64 <= (1u64 << 29) as i64 - 1 || 30 == 64 {
                let mut c = b;
                { let mut m = S7_2::new(&mut c[..]); m.set_f30(v); }
                assert!(S7_2::new(&c[..]).get_f30() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[20..25], 7, 31);
            assert!(s.get_raw_f31() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 33) as i64) >> 33;
            assert!(s.get_f31() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_2::new(&mut c[..]); m.set_f31(v); }
            assert!(updated::<false>(&b[20..25], &c[20..25], 7, 31, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 25), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_2::new(&mut c[..]); m.set_raw_f31(r); }
            assert!(updated::<false>(&b[20..25], &c[20..25], 7, 31, r as u64) && others(&b, &c, 20, 25), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 30 && v as i64 <= (1u64 << 30) as i64 - 1 || 31 == 64 {
                let mut c = b;
                { let mut m = S7_2::new(&mut c[..]); m.set_f31(v); }
                assert!(S7_2::new(&c[..]).get_f31() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[24..30], 7, 34);
            assert!(s.get_raw_f34() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 30) as i64) >> 30;
            assert!(s.get_f34() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_2::new(&mut c[..]); m.set_f34(v); }
            assert!(updated::<false>(&b[24..30], &c[24..30], 7, 34, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 24, 30), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_2::new(&mut c[..]); m.set_raw_f34(r); }
            assert!(updated::<false>(&b[24..30], &c[24..30], 7, 34, r as u64) && others(&b, &c, 24, 30), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 33 && v as i64 <= (1u64 << 33) as i64 - 1 || 34 == 64 {
                let mut c = b;
                { let mut m = S7_2::new(&mut c[..]); m.set_f34(v); }
                assert!(S7_2::new(&c[..]).get_f34() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[29..35], 7, 35);
            assert!(s.get_raw_f35() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 29) as i64) >> 29;
            assert!(s.get_f35() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_2::new(&mut c[..]); m.set_f35(v); }
            assert!(updated::<false>(&b[29..35], &c[29..35], 7, 35, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 29, 35), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_2::new(&mut c[..]); m.set_raw_f35(r); }
            assert!(updated::<false>(&b[29..35], &c[29..35], 7, 35, r as u64) && others(&b, &c, 29, 35), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 34 && v as i64 <= (1u64 << 34) as i64 - 1 || 35 == 64 {
                let mut c = b;
                { let mut m = S7_2::new(&mut c[..]); m.set_f35(v); }
                assert!(S7_2::new(&c[..]).get_f35() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o7_g3() {
        use crate::ilet::*;
        const N: usize = 45;
        assert!(<S7_3<()> as FixedSize>::SIZE == N && SIZE_S7_3 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S7_3::new(&b[..]);
        {
            let raw = field::<false>(&b[0..6], 7, 36);
            assert!(s.get_raw_f36() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 28) as i64) >> 28;
            assert!(s.get_f36() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_3::new(&mut c[..]); m.set_f36(v); }
            assert!(updated::<false>(&b[0..6], &c[0..6], 7, 36, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_3::new(&mut c[..]); m.set_raw_f36(r); }
            assert!(updated::<false>(&b[0..6], &c[0..6], 7, 36, r as u64) && others(&b, &c, 0, 6), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 35 && v as i64 <= (1u64 << 35) as i64 - 1 || 36 == 64 {
                let mut c = b;
                { let mut m = S7_3::new(&mut c[..]); m.set_f36(v); }
                assert!(S7_3::new(&c[..]).get_f36() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[5..11], 7, 37);
            assert!(s.get_raw_f37() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 27) as i64) >> 27;
            assert!(s.get_f37() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_3::new(&mut c[..]); m.set_f37(v); }
            assert!(updated::<false>(&b[5..11], &c[5..11], 7, 37, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 11), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_3::new(&mut c[..]); m.set_raw_f37(r); }
            assert!(updated::<false>(&b[5..11], &c[5..11], 7, 37, r as u64) && others(&b, &c, 5, 11), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 36 && v as i64 <= (1u64 << 36) as i64 - 1 || 37 == 64 {
                let mut c = b;
                { let mut m = S7_3::new(&mut c[..]); m.set_f37(v); }
                assert!(S7_3::new(&c[..]).get_f37() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[10..16], 7, 38);
            assert!(s.get_raw_f38() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 26) as i64) >> 26;
            assert!(s.get_f38() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_3::new(&mut c[..]); m.set_f38(v); }
            assert!(updated::<false>(&b[10..16], &c[10..16], 7, 38, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 16), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_3::new(&mut c[..]); m.set_raw_f38(r); }
            assert!(updated::<false>(&b[10..16], &c[10..16], 7, 38, r as u64) && others(&b, &c, 10, 16), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 37 && v as i64 <= (1u64 << 37) as i64 - 1 || 38 == 64 {
                let mut c = b;
                { let mut m = S7_3::new(&mut c[..]); m.set_f38(v); }
                assert!(S7_3::new(&c[..]).get_f38() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[15..21], 7, 39);
            assert!(s.get_raw_f39() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 25) as i64) >> 25;
            assert!(s.get_f39() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_3::new(&mut c[..]); m.set_f39(v); }
            assert!(updated::<false>(&b[15..21], &c[15..21], 7, 39, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 15, 21), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_3::new(&mut c[..]); m.set_raw_f39(r); }
            assert!(updated::<false>(&b[15..21], &c[15..21], 7, 39, r as u64) && others(&b, &c, 15, 21), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 38 && v as i64 <= (1u64 << 38) as i64 - 1 || 39 == 64 {
                let mut c = b;
                { let mut m = S7_3::new(&mut c[..]); m.set_f39(v); }
                assert!(S7_3::new(&c[..]).get_f39() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[20..26], 7, 41);
            assert!(s.get_raw_f41() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 23) as i64) >> 23;
            assert!(s.get_f41() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_3::new(&mut c[..]); m.set_f41(v); }
            assert!(updated::<false>(&b[20..26], &c[20..26], 7, 41, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 26), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_3::new(&mut c[..]); m.set_raw_f41(r); }
            assert!(updated::<false>(&b[20..26], &c[20..26], 7, 41, r as u64) && others(&b, &c, 20, 26), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 40 && v as i64 <= (1u64 << 40) as i64 - 1 || 41 == 64 {
                let mut c = b;
                { let mut m = S7_3::new(&mut c[..]); m.set_f41(v); }
                assert!(S7_3::new(&c[..]).get_f41() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[26..33], 7, 42);
            assert!(s.get_raw_f42() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 22) as i64) >> 22;
            assert!(s.get_f42() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_3::new(&mut c[..]); m.set_f42(v); }
            assert!(updated::<false>(&b[26..33], &c[26..33], 7, 42, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 26, 33), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_3::new(&mut c[..]); m.set_raw_f42(r); }
            assert!(updated::<false>(&b[26..33], &c[26..33], 7, 42, r as u64) && others(&b, &c, 26, 33), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 41 && v as i64 <= (1u64 << 41) as i64 - 1 || 42 == 64 {
                let mut c = b;
                { let mut m = S7_3::new(&mut c[..]); m.set_f42(v); }
                assert!(S7_3::new(&c[..]).get_f42() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[32..39], 7, 43);
            assert!(s.get_raw_f43() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 21) as i64) >> 21;
            assert!(s.get_f43() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_3::new(&mut c[..]); m.set_f43(v); }
            assert!(updated::<false>(&b[32..39], &c[32..39], 7, 43, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 32, 39), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_3::new(&mut c[..]); m.set_raw_f43(r); }
            assert!(updated::<false>(&b[32..39], &c[32..39], 7, 43, r as u64) && others(&b, &c, 32, 39), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 42 && v as i64 <= (1u64 << 42) as i64 - 1 || 43 == 64 {
                let mut c = b;
                { let mut m = S7_3::new(&mut c[..]); m.set_f43(v); }
                assert!(S7_3::new(&c[..]).get_f43() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[38..45], 7, 44);
            assert!(s.get_raw_f44() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 20) as i64) >> 20;
            assert!(s.get_f44() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_3::new(&mut c[..]); m.set_f44(v); }
            assert!(updated::<false>(&b[38..45], &c[38..45], 7, 44, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 38, 45), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_3::new(&mut c[..]); m.set_raw_f44(r); }
            assert!(updated::<false>(&b[38..45], &c[38..45], 7, 44, r as u64) && others(&b, &c, 38, 45), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 43 && v as i64 <= (1u64 << 43) as i64 - 1 || 44 == 64 {
                let mut c = b;
                { let mut m = S7_3::new(&mut c[..]); m.set_f44(v); }
                assert!(S7_3::new(&c[..]).get_f44() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o7_g4() {
        use crate::ilet::*;
        const N: usize = 53;
        assert!(<S7_4<()> as FixedSize>::SIZE == N && SIZE_S7_4 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S7_4::new(&b[..]);
        {
            let raw = field::<false>(&b[0..7], 7, 45);
            assert!(s.get_raw_f45() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 19) as i64) >> 19;
            assert!(s.get_f45() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_4::new(&mut c[..]); m.set_f45(v); }
            assert!(updated::<false>(&b[0..7], &c[0..7], 7, 45, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_4::new(&mut c[..]); m.set_raw_f45(r); }
            assert!(updated::<false>(&b[0..7], &c[0..7], 7, 45, r as u64) && others(&b, &c, 0, 7), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 44 && v as i64 <= (1u64 << 44) as i64 - 1 || 45 == 64 {
                let mut c = b;
                { let mut m = S7_4::new(&mut c[..]); m.set_f45(v); }
                assert!(S7_4::new(&c[..]).get_f45() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[6..13], 7, 46);
            assert!(s.get_raw_f46() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 18) as i64) >> 18;
            assert!(s.get_f46() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_4::new(&mut c[..]); m.set_f46(v); }
            assert!(updated::<false>(&b[6..13], &c[6..13], 7, 46, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_4::new(&mut c[..]); m.set_raw_f46(r); }
            assert!(updated::<false>(&b[6..13], &c[6..13], 7, 46, r as u64) && others(&b, &c, 6, 13), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 45 && v as i64 <= (1u64 << 45) as i64 - 1 || 46 == 64 {
                let mut c = b;
                { let mut m = S7_4::new(&mut c[..]); m.set_f46(v); }
                assert!(S7_4::new(&c[..]).get_f46() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[12..19], 7, 47);
            assert!(s.get_raw_f47() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 17) as i64) >> 17;
            assert!(s.get_f47() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_4::new(&mut c[..]); m.set_f47(v); }
            assert!(updated::<false>(&b[12..19], &c[12..19], 7, 47, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_4::new(&mut c[..]); m.set_raw_f47(r); }
            assert!(updated::<false>(&b[12..19], &c[12..19], 7, 47, r as u64) && others(&b, &c, 12, 19), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 46 && v as i64 <= (1u64 << 46) as i64 - 1 || 47 == 64 {
                let mut c = b;
                { let mut m = S7_4::new(&mut c[..]); m.set_f47(v); }
                assert!(S7_4::new(&c[..]).get_f47() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[18..25], 7, 48);
            assert!(s.get_raw_f48() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 16) as i64) >> 16;
            assert!(s.get_f48() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_4::new(&mut c[..]); m.set_f48(v); }
            assert!(updated::<false>(&b[18..25], &c[18..25], 7, 48, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 18, 25), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_4::new(&mut c[..]); m.set_raw_f48(r); }
            assert!(updated::<false>(&b[18..25], &c[18..25], 7, 48, r as u64) && others(&b, &c, 18, 25), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 47 && v as i64 <= (1u64 << 47) as i64 - 1 || 48 == 64 {
                let mut c = b;
                { let mut m = S7_4::new(&mut c[..]); m.set_f48(v); }
                assert!(S7_4::new(&c[..]).get_f48() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[24..31], 7, 49);
            assert!(s.get_raw_f49() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 15) as i64) >> 15;
            assert!(s.get_f49() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_4::new(&mut c[..]); m.set_f49(v); }
            assert!(updated::<false>(&b[24..31], &c[24..31], 7, 49, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 24, 31), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_4::new(&mut c[..]); m.set_raw_f49(r); }
            assert!(updated::<false>(&b[24..31], &c[24..31], 7, 49, r as u64) && others(&b, &c, 24, 31), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 48 && v as i64 <= (1u64 << 48) as i64 - 1 || 49 == 64 {
                let mut c = b;
                { let mut m = S7_4::new(&mut c[..]); m.set_f49(v); }
                assert!(S7_4::new(&c[..]).get_f49() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[31..39], 7, 50);
            assert!(s.get_raw_f50() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 14) as i64) >> 14;
            assert!(s.get_f50() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_4::new(&mut c[..]); m.set_f50(v); }
            assert!(updated::<false>(&b[31..39], &c[31..39], 7, 50, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 31, 39), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_4::new(&mut c[..]); m.set_raw_f50(r); }
            assert!(updated::<false>(&b[31..39], &c[31..39], 7, 50, r as u64) && others(&b, &c, 31, 39), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 49 && v as i64 <= (1u64 << 49) as i64 - 1 || 50 == 64 {
                let mut c = b;
                { let mut m = S7_4::new(&mut c[..]); m.set_f50(v); }
                assert!(S7_4::new(&c[..]).get_f50() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[38..46], 7, 51);
            assert!(s.get_raw_f51() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 13) as i64) >> 13;
            assert!(s.get_f51() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_4::new(&mut c[..]); m.set_f51(v); }
            assert!(updated::<false>(&b[38..46], &c[38..46], 7, 51, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 38, 46), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_4::new(&mut c[..]); m.set_raw_f51(r); }
            assert!(updated::<false>(&b[38..46], &c[38..46], 7, 51, r as u64) && others(&b, &c, 38, 46), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 50 && v as i64 <= (1u64 << 50) as i64 - 1 || 51 == 64 {
                let mut c = b;
                { let mut m = S7_4::new(&mut c[..]); m.set_f51(v); }
                assert!(S7_4::new(&c[..]).get_f51() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[45..53], 7, 52);
            assert!(s.get_raw_f52() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 12) as i64) >> 12;
            assert!(s.get_f52() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_4::new(&mut c[..]); m.set_f52(v); }
            assert!(updated::<false>(&b[45..53], &c[45..53], 7, 52, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 45, 53), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_4::new(&mut c[..]); m.set_raw_f52(r); }
            assert!(updated::<false>(&b[45..53], &c[45..53], 7, 52, r as u64) && others(&b, &c, 45, 53), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 51 && v as i64 <= (1u64 << 51) as i64 - 1 || 52 == 64 {
                let mut c = b;
                { let mut m = S7_4::new(&mut c[..]); m.set_f52(v); }
                assert!(S7_4::new(&c[..]).get_f52() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o7_g5() {
        use crate::ilet::*;
        const N: usize = 62;
        assert!(<S7_5<()> as FixedSize>::SIZE == N && SIZE_S7_5 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S7_5::new(&b[..]);
        {
            let raw = field::<false>(&b[0..8], 7, 53);
            assert!(s.get_raw_f53() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 11) as i64) >> 11;
            assert!(s.get_f53() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_5::new(&mut c[..]); m.set_f53(v); }
            assert!(updated::<false>(&b[0..8], &c[0..8], 7, 53, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_5::new(&mut c[..]); m.set_raw_f53(r); }
            assert!(updated::<false>(&b[0..8], &c[0..8], 7, 53, r as u64) && others(&b, &c, 0, 8), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 52 && v as i64 <= (1u64 << 52) as i64 - 1 || 53 == 64 {
                let mut c = b;
                { let mut m = S7_5::new(&mut c[..]); m.set_f53(v); }
                assert!(S7_5::new(&c[..]).get_f53() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[7..15], 7, 54);
            assert!(s.get_raw_f54() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 10) as i64) >> 10;
            assert!(s.get_f54() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_5::new(&mut c[..]); m.set_f54(v); }
            assert!(updated::<false>(&b[7..15], &c[7..15], 7, 54, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 15), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_5::new(&mut c[..]); m.set_raw_f54(r); }
            assert!(updated::<false>(&b[7..15], &c[7..15], 7, 54, r as u64) && others(&b, &c, 7, 15), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 53 && v as i64 <= (1u64 << 53) as i64 - 1 || 54 == 64 {
                let mut c = b;
                { let mut m = S7_5::new(&mut c[..]); m.set_f54(v); }
                assert!(S7_5::new(&c[..]).get_f54() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[14..22], 7, 55);
            assert!(s.get_raw_f55() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 9) as i64) >> 9;
            assert!(s.get_f55() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_5::new(&mut c[..]); m.set_f55(v); }
            assert!(updated::<false>(&b[14..22], &c[14..22], 7, 55, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 14, 22), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_5::new(&mut c[..]); m.set_raw_f55(r); }
            assert!(updated::<false>(&b[14..22], &c[14..22], 7, 55, r as u64) && others(&b, &c, 14, 22), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 54 && v as i64 <= (1u64 << 54) as i64 - 1 || 55 == 64 {
                let mut c = b;
                { let mut m = S7_5::new(&mut c[..]); m.set_f55(v); }
                assert!(S7_5::new(&c[..]).get_f55() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[21..30], 7, 58);
            assert!(s.get_raw_f58() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 6) as i64) >> 6;
            assert!(s.get_f58() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_5::new(&mut c[..]); m.set_f58(v); }
            assert!(updated::<false>(&b[21..30], &c[21..30], 7, 58, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 21, 30), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_5::new(&mut c[..]); m.set_raw_f58(r); }
            assert!(updated::<false>(&b[21..30], &c[21..30], 7, 58, r as u64) && others(&b, &c, 21, 30), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 57 && v as i64 <= (1u64 << 57) as i64 - 1 || 58 == 64 {
                let mut c = b;
                { let mut m = S7_5::new(&mut c[..]); m.set_f58(v); }
                assert!(S7_5::new(&c[..]).get_f58() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[29..38], 7, 59);
            assert!(s.get_raw_f59() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 5) as i64) >> 5;
            assert!(s.get_f59() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_5::new(&mut c[..]); m.set_f59(v); }
            assert!(updated::<false>(&b[29..38], &c[29..38], 7, 59, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 29, 38), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_5::new(&mut c[..]); m.set_raw_f59(r); }
            assert!(updated::<false>(&b[29..38], &c[29..38], 7, 59, r as u64) && others(&b, &c, 29, 38), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 58 && v as i64 <= (1u64 << 58) as i64 - 1 || 59 == 64 {
                let mut c = b;
                { let mut m = S7_5::new(&mut c[..]); m.set_f59(v); }
                assert!(S7_5::new(&c[..]).get_f59() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[37..46], 7, 60);
            assert!(s.get_raw_f60() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 4) as i64) >> 4;
            assert!(s.get_f60() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_5::new(&mut c[..]); m.set_f60(v); }
            assert!(updated::<false>(&b[37..46], &c[37..46], 7, 60, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 37, 46), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_5::new(&mut c[..]); m.set_raw_f60(r); }
            assert!(updated::<false>(&b[37..46], &c[37..46], 7, 60, r as u64) && others(&b, &c, 37, 46), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 59 && v as i64 <= (1u64 << 59) as i64 - 1 || 60 == 64 {
                let mut c = b;
                { let mut m = S7_5::new(&mut c[..]); m.set_f60(v); }
                assert!(S7_5::new(&c[..]).get_f60() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[45..54], 7, 61);
            assert!(s.get_raw_f61() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 3) as i64) >> 3;
            assert!(s.get_f61() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_5::new(&mut c[..]); m.set_f61(v); }
            assert!(updated::<false>(&b[45..54], &c[45..54], 7, 61, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 45, 54), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_5::new(&mut c[..]); m.set_raw_f61(r); }
            assert!(updated::<false>(&b[45..54], &c[45..54], 7, 61, r as u64) && others(&b, &c, 45, 54), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 60 && v as i64 <= (1u64 << 60) as i64 - 1 || 61 == 64 {
                let mut c = b;
                { let mut m = S7_5::new(&mut c[..]); m.set_f61(v); }
                assert!(S7_5::new(&c[..]).get_f61() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[53..62], 7, 62);
            assert!(s.get_raw_f62() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 2) as i64) >> 2;
            assert!(s.get_f62() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_5::new(&mut c[..]); m.set_f62(v); }
            assert!(updated::<false>(&b[53..62], &c[53..62], 7, 62, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 53, 62), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_5::new(&mut c[..]); m.set_raw_f62(r); }
            assert!(updated::<false>(&b[53..62], &c[53..62], 7, 62, r as u64) && others(&b, &c, 53, 62), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 61 && v as i64 <= (1u64 << 61) as i64 - 1 || 62 == 64 {
                let mut c = b;
                { let mut m = S7_5::new(&mut c[..]); m.set_f62(v); }
                assert!(S7_5::new(&c[..]).get_f62() == v, "a value in the range of the field is given back");
            }
        }
    }
}
#[cfg(feature = "ibet")]
mod ibet {
    use crate::spec::*;
    use bp3d_proto::util::FixedSize;
    #[kani::proof]
    fn o0_g0() {
        use crate::ibet::*;
        const N: usize = 12;
        assert!(<S0_0<()> as FixedSize>::SIZE == N && SIZE_S0_0 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S0_0::new(&b[..]);
        {
            let raw = field::<true>(&b[0..1], 0, 2);
            assert!(s.get_raw_f2() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 62) as i64) >> 62;
            assert!(s.get_f2() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_0::new(&mut c[..]); m.set_f2(v); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 0, 2, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_0::new(&mut c[..]); m.set_raw_f2(r); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 0, 2, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 1 && v as i64 <= (1u64 << 1) as i64 - 1 || 2 == 64 {
                let mut c = b;
                { let mut m = S0_0::new(&mut c[..]); m.set_f2(v); }
                assert!(S0_0::new(&c[..]).get_f2() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[1..2], 0, 4);
            assert!(s.get_raw_f4() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 60) as i64) >> 60;
            assert!(s.get_f4() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_0::new(&mut c[..]); m.set_f4(v); }
            assert!(updated::<true>(&b[1..2], &c[1..2], 0, 4, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_0::new(&mut c[..]); m.set_raw_f4(r); }
            assert!(updated::<true>(&b[1..2], &c[1..2], 0, 4, r as u64) && others(&b, &c, 1, 2), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 3 && v as i64 <= (1u64 << 3) as i64 - 1 || 4 == 64 {
                let mut c = b;
                { let mut m = S0_0::new(&mut c[..]); m.set_f4(v); }
                assert!(S0_0::new(&c[..]).get_f4() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[2..3], 0, 5);
            assert!(s.get_raw_f5() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 59) as i64) >> 59;
            assert!(s.get_f5() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_0::new(&mut c[..]); m.set_f5(v); }
            assert!(updated::<true>(&b[2..3], &c[2..3], 0, 5, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_0::new(&mut c[..]); m.set_raw_f5(r); }
            assert!(updated::<true>(&b[2..3], &c[2..3], 0, 5, r as u64) && others(&b, &c, 2, 3), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 4 && v as i64 <= (1u64 << 4) as i64 - 1 || 5 == 64 {
                let mut c = b;
                { let mut m = S0_0::new(&mut c[..]); m.set_f5(v); }
                assert!(S0_0::new(&c[..]).get_f5() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[3..4], 0, 6);
            assert!(s.get_raw_f6() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 58) as i64) >> 58;
            assert!(s.get_f6() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_0::new(&mut c[..]); m.set_f6(v); }
            assert!(updated::<true>(&b[3..4], &c[3..4], 0, 6, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_0::new(&mut c[..]); m.set_raw_f6(r); }
            assert!(updated::<true>(&b[3..4], &c[3..4], 0, 6, r as u64) && others(&b, &c, 3, 4), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 5 && v as i64 <= (1u64 << 5) as i64 - 1 || 6 == 64 {
                let mut c = b;
                { let mut m = S0_0::new(&mut c[..]); m.set_f6(v); }
                assert!(S0_0::new(&c[..]).get_f6() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[4..6], 0, 10);
            assert!(s.get_raw_f10() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 54) as i64) >> 54;
            assert!(s.get_f10() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_0::new(&mut c[..]); m.set_f10(v); }
            assert!(updated::<true>(&b[4..6], &c[4..6], 0, 10, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_0::new(&mut c[..]); m.set_raw_f10(r); }
            assert!(updated::<true>(&b[4..6], &c[4..6], 0, 10, r as u64) && others(&b, &c, 4, 6), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 9 && v as i64 <= (1u64 << 9) as i64 - 1 || 10 == 64 {
                let mut c = b;
                { let mut m = S0_0::new(&mut c[..]); m.set_f10(v); }
                assert!(S0_0::new(&c[..]).get_f10() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[6..8], 0, 11);
            assert!(s.get_raw_f11() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 53) as i64) >> 53;
            assert!(s.get_f11() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_0::new(&mut c[..]); m.set_f11(v); }
            assert!(updated::<true>(&b[6..8], &c[6..8], 0, 11, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_0::new(&mut c[..]); m.set_raw_f11(r); }
            assert!(updated::<true>(&b[6..8], &c[6..8], 0, 11, r as u64) && others(&b, &c, 6, 8), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 10 && v as i64 <= (1u64 << 10) as i64 - 1 || 11 == 64 {
                let mut c = b;
                { let mut m = S0_0::new(&mut c[..]); m.set_f11(v); }
                assert!(S0_0::new(&c[..]).get_f11() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[8..10], 0, 12);
            assert!(s.get_raw_f12() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 52) as i64) >> 52;
            assert!(s.get_f12() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_0::new(&mut c[..]); m.set_f12(v); }
            assert!(updated::<true>(&b[8..10], &c[8..10], 0, 12, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 8, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_0::new(&mut c[..]); m.set_raw_f12(r); }
            assert!(updated::<true>(&b[8..10], &c[8..10], 0, 12, r as u64) && others(&b, &c, 8, 10), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 11 && v as i64 <= (1u64 << 11) as i64 - 1 || 12 == 64 {
                let mut c = b;
                { let mut m = S0_0::new(&mut c[..]); m.set_f12(v); }
                assert!(S0_0::new(&c[..]).get_f12() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[10..12], 0, 13);
            assert!(s.get_raw_f13() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 51) as i64) >> 51;
            assert!(s.get_f13() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_0::new(&mut c[..]); m.set_f13(v); }
            assert!(updated::<true>(&b[10..12], &c[10..12], 0, 13, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 12), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_0::new(&mut c[..]); m.set_raw_f13(r); }
            assert!(updated::<true>(&b[10..12], &c[10..12], 0, 13, r as u64) && others(&b, &c, 10, 12), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 12 && v as i64 <= (1u64 << 12) as i64 - 1 || 13 == 64 {
                let mut c = b;
                { let mut m = S0_0::new(&mut c[..]); m.set_f13(v); }
                assert!(S0_0::new(&c[..]).get_f13() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o0_g1() {
        use crate::ibet::*;
        const N: usize = 22;
        assert!(<S0_1<()> as FixedSize>::SIZE == N && SIZE_S0_1 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S0_1::new(&b[..]);
        {
            let raw = field::<true>(&b[0..2], 0, 14);
            assert!(s.get_raw_f14() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 50) as i64) >> 50;
            assert!(s.get_f14() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_1::new(&mut c[..]); m.set_f14(v); }
            assert!(updated::<true>(&b[0..2], &c[0..2], 0, 14, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_1::new(&mut c[..]); m.set_raw_f14(r); }
            assert!(updated::<true>(&b[0..2], &c[0..2], 0, 14, r as u64) && others(&b, &c, 0, 2), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 13 && v as i64 <= (1u64 << 13) as i64 - 1 || 14 == 64 {
                let mut c = b;
                { let mut m = S0_1::new(&mut c[..]); m.set_f14(v); }
                assert!(S0_1::new(&c[..]).get_f14() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[2..4], 0, 15);
            assert!(s.get_raw_f15() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 49) as i64) >> 49;
            assert!(s.get_f15() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_1::new(&mut c[..]); m.set_f15(v); }
            assert!(updated::<true>(&b[2..4], &c[2..4], 0, 15, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_1::new(&mut c[..]); m.set_raw_f15(r); }
            assert!(updated::<true>(&b[2..4], &c[2..4], 0, 15, r as u64) && others(&b, &c, 2, 4), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 14 && v as i64 <= (1u64 << 14) as i64 - 1 || 15 == 64 {
                let mut c = b;
                { let mut m = S0_1::new(&mut c[..]); m.set_f15(v); }
                assert!(S0_1::new(&c[..]).get_f15() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[4..7], 0, 18);
            assert!(s.get_raw_f18() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 46) as i64) >> 46;
            assert!(s.get_f18() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_1::new(&mut c[..]); m.set_f18(v); }
            assert!(updated::<true>(&b[4..7], &c[4..7], 0, 18, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_1::new(&mut c[..]); m.set_raw_f18(r); }
            assert!(updated::<true>(&b[4..7], &c[4..7], 0, 18, r as u64) && others(&b, &c, 4, 7), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 17 && v as i64 <= (1u64 << 17) as i64 - 1 || 18 == 64 {
                let mut c = b;
                { let mut m = S0_1::new(&mut c[..]); m.set_f18(v); }
                assert!(S0_1::new(&c[..]).get_f18() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[7..10], 0, 19);
            assert!(s.get_raw_f19() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 45) as i64) >> 45;
            assert!(s.get_f19() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_1::new(&mut c[..]); m.set_f19(v); }
            assert!(updated::<true>(&b[7..10], &c[7..10], 0, 19, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_1::new(&mut c[..]); m.set_raw_f19(r); }
            assert!(updated::<true>(&b[7..10], &c[7..10], 0, 19, r as u64) && others(&b, &c, 7, 10), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 18 && v as i64 <= (1u64 << 18) as i64 - 1 || 19 == 64 {
                let mut c = b;
                { let mut m = S0_1::new(&mut c[..]); m.set_f19(v); }
                assert!(S0_1::new(&c[..]).get_f19() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[10..13], 0, 20);
            assert!(s.get_raw_f20() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 44) as i64) >> 44;
            assert!(s.get_f20() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_1::new(&mut c[..]); m.set_f20(v); }
            assert!(updated::<true>(&b[10..13], &c[10..13], 0, 20, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_1::new(&mut c[..]); m.set_raw_f20(r); }
            assert!(updated::<true>(&b[10..13], &c[10..13], 0, 20, r as u64) && others(&b, &c, 10, 13), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 19 && v as i64 <= (1u64 << 19) as i64 - 1 || 20 == 64 {
                let mut c = b;
                { let mut m = S0_1::new(&mut c[..]); m.set_f20(v); }
                assert!(S0_1::new(&c[..]).get_f20() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[13..16], 0, 21);
            assert!(s.get_raw_f21() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 43) as i64) >> 43;
            assert!(s.get_f21() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_1::new(&mut c[..]); m.set_f21(v); }
            assert!(updated::<true>(&b[13..16], &c[13..16], 0, 21, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 13, 16), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_1::new(&mut c[..]); m.set_raw_f21(r); }
            assert!(updated::<true>(&b[13..16], &c[13..16], 0, 21, r as u64) && others(&b, &c, 13, 16), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 20 && v as i64 <= (1u64 << 20) as i64 - 1 || 21 == 64 {
                let mut c = b;
                { let mut m = S0_1::new(&mut c[..]); m.set_f21(v); }
                assert!(S0_1::new(&c[..]).get_f21() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[16..19], 0, 22);
            assert!(s.get_raw_f22() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 42) as i64) >> 42;
            assert!(s.get_f22() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_1::new(&mut c[..]); m.set_f22(v); }
            assert!(updated::<true>(&b[16..19], &c[16..19], 0, 22, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_1::new(&mut c[..]); m.set_raw_f22(r); }
            assert!(updated::<true>(&b[16..19], &c[16..19], 0, 22, r as u64) && others(&b, &c, 16, 19), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 21 && v as i64 <= (1u64 << 21) as i64 - 1 || 22 == 64 {
                let mut c = b;
                { let mut m = S0_1::new(&mut c[..]); m.set_f22(v); }
                assert!(S0_1::new(&c[..]).get_f22() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[19..22], 0, 23);
            assert!(s.get_raw_f23() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 41) as i64) >> 41;
            assert!(s.get_f23() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_1::new(&mut c[..]); m.set_f23(v); }
            assert!(updated::<true>(&b[19..22], &c[19..22], 0, 23, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 19, 22), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_1::new(&mut c[..]); m.set_raw_f23(r); }
            assert!(updated::<true>(&b[19..22], &c[19..22], 0, 23, r as u64) && others(&b, &c, 19, 22), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 22 && v as i64 <= (1u64 << 22) as i64 - 1 || 23 == 64 {
                let mut c = b;
                { let mut m = S0_1::new(&mut c[..]); m.set_f23(v); }
                assert!(S0_1::new(&c[..]).get_f23() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o0_g2() {
        use crate::ibet::*;
        const N: usize = 34;
        assert!(<S0_2<()> as FixedSize>::SIZE == N && SIZE_S0_2 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S0_2::new(&b[..]);
        {
            let raw = field::<true>(&b[0..4], 0, 26);
            assert!(s.get_raw_f26() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 38) as i64) >> 38;
            assert!(s.get_f26() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_2::new(&mut c[..]); m.set_f26(v); }
            assert!(updated::<true>(&b[0..4], &c[0..4], 0, 26, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_2::new(&mut c[..]); m.set_raw_f26(r); }
            assert!(updated::<true>(&b[0..4], &c[0..4], 0, 26, r as u64) && others(&b, &c, 0, 4), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 25 && v as i64 <= (1u64 << 25) as i64 - 1 || 26 == 64 {
                let mut c = b;
                { let mut m = S0_2::new(&mut c[..]); m.set_f26(v); }
                assert!(S0_2::new(&c[..]).get_f26() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[4..8], 0, 27);
            assert!(s.get_raw_f27() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 37) as i64) >> 37;
            assert!(s.get_f27() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_2::new(&mut c[..]); m.set_f27(v); }
            assert!(updated::<true>(&b[4..8], &c[4..8], 0, 27, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_2::new(&mut c[..]); m.set_raw_f27(r); }
            assert!(updated::<true>(&b[4..8], &c[4..8], 0, 27, r as u64) && others(&b, &c, 4, 8), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 26 && v as i64 <= (1u64 << 26) as i64 - 1 || 27 == 64 {
                let mut c = b;
                { let mut m = S0_2::new(&mut c[..]); m.set_f27(v); }
                assert!(S0_2::new(&c[..]).get_f27() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[8..12], 0, 28);
            assert!(s.get_raw_f28() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 36) as i64) >> 36;
            assert!(s.get_f28() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_2::new(&mut c[..]); m.set_f28(v); }
            assert!(updated::<true>(&b[8..12], &c[8..12], 0, 28, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 8, 12), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_2::new(&mut c[..]); m.set_raw_f28(r); }
            assert!(updated::<true>(&b[8..12], &c[8..12], 0, 28, r as u64) && others(&b, &c, 8, 12), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 27 && v as i64 <= (1u64 << 27) as i64 - 1 || 28 == 64 {
                let mut c = b;
                { let mut m = S0_2::new(&mut c[..]); m.set_f28(v); }
                assert!(S0_2::new(&c[..]).get_f28() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[12..16], 0, 29);
            assert!(s.get_raw_f29() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 35) as i64) >> 35;
            assert!(s.get_f29() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_2::new(&mut c[..]); m.set_f29(v); }
            assert!(updated::<true>(&b[12..16], &c[12..16], 0, 29, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 16), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_2::new(&mut c[..]); m.set_raw_f29(r); }
            assert!(updated::<true>(&b[12..16], &c[12..16], 0, 29, r as u64) && others(&b, &c, 12, 16), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 28 && v as i64 <= (1u64 << 28) as i64 - 1 || 29 == 64 {
                let mut c = b;
                { let mut m = S0_2::new(&mut c[..]); m.set_f29(v); }
                assert!(S0_2::new(&c[..]).get_f29() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[16..20], 0, 30);
            assert!(s.get_raw_f30() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 34) as i64) >> 34;
            assert!(s.get_f30() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_2::new(&mut c[..]); m.set_f30(v); }
            assert!(updated::<true>(&b[16..20], &c[16..20], 0, 30, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_2::new(&mut c[..]); m.set_raw_f30(r); }
            assert!(updated::<true>(&b[16..20], &c[16..20], 0, 30, r as u64) && others(&b, &c, 16, 20), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 29 && v as i64 <= (1u64 << 29) as i64 - 1 || 30 == 64 {
                let mut c = b;
                { let mut m = S0_2::new(&mut c[..]); m.set_f30(v); }
                assert!(S0_2::new(&c[..]).get_f30() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[20..24], 0, 31);
            assert!(s.get_raw_f31() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 33) as i64) >> 33;
            assert!(s.get_f31() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_2::new(&mut c[..]); m.set_f31(v); }
            assert!(updated::<true>(&b[20..24], &c[20..24], 0, 31, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 24), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_2::new(&mut c[..]); m.set_raw_f31(r); }
            assert!(updated::<true>(&b[20..24], &c[20..24], 0, 31, r as u64) && others(&b, &c, 20, 24), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 30 && v as i64 <= (1u64 << 30) as i64 - 1 || 31 == 64 {
                let mut c = b;
                { let mut m = S0_2::new(&mut c[..]); m.set_f31(v); }
                assert!(S0_2::new(&c[..]).get_f31() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[24..29], 0, 34);
            assert!(s.get_raw_f34() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 30) as i64) >> 30;
            assert!(s.get_f34() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_2::new(&mut c[..]); m.set_f34(v); }
            assert!(updated::<true>(&b[24..29], &c[24..29], 0, 34, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 24, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_2::new(&mut c[..]); m.set_raw_f34(r); }
            assert!(updated::<true>(&b[24..29], &c[24..29], 0, 34, r as u64) && others(&b, &c, 24, 29), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 33 && v as i64 <= (1u64 << 33) as i64 - 1 || 34 == 64 {
                let mut c = b;
                { let mut m = S0_2::new(&mut c[..]); m.set_f34(v); }
                assert!(S0_2::new(&c[..]).get_f34() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[29..34], 0, 35);
            assert!(s.get_raw_f35() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 29) as i64) >> 29;
            assert!(s.get_f35() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_2::new(&mut c[..]); m.set_f35(v); }
            assert!(updated::<true>(&b[29..34], &c[29..34], 0, 35, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 29, 34), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_2::new(&mut c[..]); m.set_raw_f35(r); }
            assert!(updated::<true>(&b[29..34], &c[29..34], 0, 35, r as u64) && others(&b, &c, 29, 34), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 34 && v as i64 <= (1u64 << 34) as i64 - 1 || 35 == 64 {
                let mut c = b;
                { let mut m = S0_2::new(&mut c[..]); m.set_f35(v); }
                assert!(S0_2::new(&c[..]).get_f35() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o0_g3() {
        use crate::ibet::*;
        const N: usize = 44;
        assert!(<S0_3<()> as FixedSize>::SIZE == N && SIZE_S0_3 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S0_3::new(&b[..]);
        {
            let raw = field::<true>(&b[0..5], 0, 36);
            assert!(s.get_raw_f36() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 28) as i64) >> 28;
            assert!(s.get_f36() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_3::new(&mut c[..]); m.set_f36(v); }
            assert!(updated::<true>(&b[0..5], &c[0..5], 0, 36, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_3::new(&mut c[..]); m.set_raw_f36(r); }
            assert!(updated::<true>(&b[0..5], &c[0..5], 0, 36, r as u64) && others(&b, &c, 0, 5), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 35 && v as i64 <= (1u64 << 35) as i64 - 1 || 36 == 64 {
                let mut c = b;
                { let mut m = S0_3::new(&mut c[..]); m.set_f36(v); }
                assert!(S0_3::new(&c[..]).get_f36() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[5..10], 0, 37);
            assert!(s.get_raw_f37() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 27) as i64) >> 27;
            assert!(s.get_f37() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_3::new(&mut c[..]); m.set_f37(v); }
            assert!(updated::<true>(&b[5..10], &c[5..10], 0, 37, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_3::new(&mut c[..]); m.set_raw_f37(r); }
            assert!(updated::<true>(&b[5..10], &c[5..10], 0, 37, r as u64) && others(&b, &c, 5, 10), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 36 && v as i64 <= (1u64 << 36) as i64 - 1 || 37 == 64 {
                let mut c = b;
                { let mut m = S0_3::new(&mut c[..]); m.set_f37(v); }
                assert!(S0_3::new(&c[..]).get_f37() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[10..15], 0, 38);
            assert!(s.get_raw_f38() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 26) as i64) >> 26;
            assert!(s.get_f38() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_3::new(&mut c[..]); m.set_f38(v); }
            assert!(updated::<true>(&b[10..15], &c[10..15], 0, 38, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 15), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_3::new(&mut c[..]); m.set_raw_f38(r); }
            assert!(updated::<true>(&b[10..15], &c[10..15], 0, 38, r as u64) && others(&b, &c, 10, 15), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 37 && v as i64 <= (1u64 << 37) as i64 - 1 || 38 == 64 {
                let mut c = b;
                { let mut m = S0_3::new(&mut c[..]); m.set_f38(v); }
                assert!(S0_3::new(&c[..]).get_f38() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[15..20], 0, 39);
            assert!(s.get_raw_f39() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 25) as i64) >> 25;
            assert!(s.get_f39() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_3::new(&mut c[..]); m.set_f39(v); }
            assert!(updated::<true>(&b[15..20], &c[15..20], 0, 39, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 15, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_3::new(&mut c[..]); m.set_raw_f39(r); }
            assert!(updated::<true>(&b[15..20], &c[15..20], 0, 39, r as u64) && others(&b, &c, 15, 20), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 38 && v as i64 <= (1u64 << 38) as i64 - 1 || 39 == 64 {
                let mut c = b;
                { let mut m = S0_3::new(&mut c[..]); m.set_f39(v); }
                assert!(S0_3::new(&c[..]).get_f39() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[20..26], 0, 41);
            assert!(s.get_raw_f41() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 23) as i64) >> 23;
            assert!(s.get_f41() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_3::new(&mut c[..]); m.set_f41(v); }
            assert!(updated::<true>(&b[20..26], &c[20..26], 0, 41, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 26), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_3::new(&mut c[..]); m.set_raw_f41(r); }
            assert!(updated::<true>(&b[20..26], &c[20..26], 0, 41, r as u64) && others(&b, &c, 20, 26), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 40 && v as i64 <= (1u64 << 40) as i64 - 1 || 41 == 64 {
                let mut c = b;
                { let mut m = S0_3::new(&mut c[..]); m.set_f41(v); }
                assert!(S0_3::new(&c[..]).get_f41() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[26..32], 0, 42);
            assert!(s.get_raw_f42() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 22) as i64) >> 22;
            assert!(s.get_f42() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_3::new(&mut c[..]); m.set_f42(v); }
            assert!(updated::<true>(&b[26..32], &c[26..32], 0, 42, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 26, 32), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_3::new(&mut c[..]); m.set_raw_f42(r); }
            assert!(updated::<true>(&b[26..32], &c[26..32], 0, 42, r as u64) && others(&b, &c, 26, 32), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 41 && v as i64 <= (1u64 << 41) as i64 - 1 || 42 == 64 {
                let mut c = b;
                { let mut m = S0_3::new(&mut c[..]); m.set_f42(v); }
                assert!(S0_3::new(&c[..]).get_f42() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[32..38], 0, 43);
            assert!(s.get_raw_f43() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 21) as i64) >> 21;
            assert!(s.get_f43() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_3::new(&mut c[..]); m.set_f43(v); }
            assert!(updated::<true>(&b[32..38], &c[32..38], 0, 43, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 32, 38), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_3::new(&mut c[..]); m.set_raw_f43(r); }
            assert!(updated::<true>(&b[32..38], &c[32..38], 0, 43, r as u64) && others(&b, &c, 32, 38), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 42 && v as i64 <= (1u64 << 42) as i64 - 1 || 43 == 64 {
                let mut c = b;
                { let mut m = S0_3::new(&mut c[..]); m.set_f43(v); }
                assert!(S0_3::new(&c[..]).get_f43() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[38..44], 0, 44);
            assert!(s.get_raw_f44() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 20) as i64) >> 20;
            assert!(s.get_f44() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_3::new(&mut c[..]); m.set_f44(v); }
            assert!(updated::<true>(&b[38..44], &c[38..44], 0, 44, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 38, 44), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_3::new(&mut c[..]); m.set_raw_f44(r); }
            assert!(updated::<true>(&b[38..44], &c[38..44], 0, 44, r as u64) && others(&b, &c, 38, 44), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 43 && v as i64 <= (1u64 << 43) as i64 - 1 || 44 == 64 {
                let mut c = b;
                { let mut m = S0_3::new(&mut c[..]); m.set_f44(v); }
                assert!(S0_3::new(&c[..]).get_f44() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o0_g4() {
        use crate::ibet::*;
        const N: usize = 52;
        assert!(<S0_4<()> as FixedSize>::SIZE == N && SIZE_S0_4 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S0_4::new(&b[..]);
        {
            let raw = field::<true>(&b[0..6], 0, 45);
            assert!(s.get_raw_f45() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 19) as i64) >> 19;
            assert!(s.get_f45() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_4::new(&mut c[..]); m.set_f45(v); }
            assert!(updated::<true>(&b[0..6], &c[0..6], 0, 45, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_4::new(&mut c[..]); m.set_raw_f45(r); }
            assert!(updated::<true>(&b[0..6], &c[0..6], 0, 45, r as u64) && others(&b, &c, 0, 6), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 44 && v as i64 <= (1u64 << 44) as i64 - 1 || 45 == 64 {
                let mut c = b;
                { let mut m = S0_4::new(&mut c[..]); m.set_f45(v); }
                assert!(S0_4::new(&c[..]).get_f45() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[6..12], 0, 46);
            assert!(s.get_raw_f46() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 18) as i64) >> 18;
            assert!(s.get_f46() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_4::new(&mut c[..]); m.set_f46(v); }
            assert!(updated::<true>(&b[6..12], &c[6..12], 0, 46, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 12), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_4::new(&mut c[..]); m.set_raw_f46(r); }
            assert!(updated::<true>(&b[6..12], &c[6..12], 0, 46, r as u64) && others(&b, &c, 6, 12), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 45 && v as i64 <= (1u64 << 45) as i64 - 1 || 46 == 64 {
                let mut c = b;
                { let mut m = S0_4::new(&mut c[..]); m.set_f46(v); }
                assert!(S0_4::new(&c[..]).get_f46() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[12..18], 0, 47);
            assert!(s.get_raw_f47() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 17) as i64) >> 17;
            assert!(s.get_f47() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_4::new(&mut c[..]); m.set_f47(v); }
            assert!(updated::<true>(&b[12..18], &c[12..18], 0, 47, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 18), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_4::new(&mut c[..]); m.set_raw_f47(r); }
            assert!(updated::<true>(&b[12..18], &c[12..18], 0, 47, r as u64) && others(&b, &c, 12, 18), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 46 && v as i64 <= (1u64 << 46) as i64 - 1 || 47 == 64 {
                let mut c = b;
                { let mut m = S0_4::new(&mut c[..]); m.set_f47(v); }
                assert!(S0_4::new(&c[..]).get_f47() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[18..24], 0, 48);
            assert!(s.get_raw_f48() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 16) as i64) >> 16;
            assert!(s.get_f48() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_4::new(&mut c[..]); m.set_f48(v); }
            assert!(updated::<true>(&b[18..24], &c[18..24], 0, 48, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 18, 24), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_4::new(&mut c[..]); m.set_raw_f48(r); }
            assert!(updated::<true>(&b[18..24], &c[18..24], 0, 48, r as u64) && others(&b, &c, 18, 24), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 47 && v as i64 <= (1u64 << 47) as i64 - 1 || 48 == 64 {
                let mut c = b;
                { let mut m = S0_4::new(&mut c[..]); m.set_f48(v); }
                assert!(S0_4::new(&c[..]).get_f48() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[24..31], 0, 49);
            assert!(s.get_raw_f49() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 15) as i64) >> 15;
            assert!(s.get_f49() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_4::new(&mut c[..]); m.set_f49(v); }
            assert!(updated::<true>(&b[24..31], &c[24..31], 0, 49, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 24, 31), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_4::new(&mut c[..]); m.set_raw_f49(r); }
            assert!(updated::<true>(&b[24..31], &c[24..31], 0, 49, r as u64) && others(&b, &c, 24, 31), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 48 && v as i64 <= (1u64 << 48) as i64 - 1 || 49 == 64 {
                let mut c = b;
                { let mut m = S0_4::new(&mut c[..]); m.set_f49(v); }
                assert!(S0_4::new(&c[..]).get_f49() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[31..38], 0, 50);
            assert!(s.get_raw_f50() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 14) as i64) >> 14;
            assert!(s.get_f50() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_4::new(&mut c[..]); m.set_f50(v); }
            assert!(updated::<true>(&b[31..38], &c[31..38], 0, 50, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 31, 38), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_4::new(&mut c[..]); m.set_raw_f50(r); }
            assert!(updated::<true>(&b[31..38], &c[31..38], 0, 50, r as u64) && others(&b, &c, 31, 38), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 49 && v as i64 <= (1u64 << 49) as i64 - 1 || 50 == 64 {
                let mut c = b;
                { let mut m = S0_4::new(&mut c[..]); m.set_f50(v); }
                assert!(S0_4::new(&c[..]).get_f50() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[38..45], 0, 51);
            assert!(s.get_raw_f51() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 13) as i64) >> 13;
            assert!(s.get_f51() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_4::new(&mut c[..]); m.set_f51(v); }
            assert!(updated::<true>(&b[38..45], &c[38..45], 0, 51, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 38, 45), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_4::new(&mut c[..]); m.set_raw_f51(r); }
            assert!(updated::<true>(&b[38..45], &c[38..45], 0, 51, r as u64) && others(&b, &c, 38, 45), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 50 && v as i64 <= (1u64 << 50) as i64 - 1 || 51 == 64 {
                let mut c = b;
                { let mut m = S0_4::new(&mut c[..]); m.set_f51(v); }
                assert!(S0_4::new(&c[..]).get_f51() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[45..52], 0, 52);
            assert!(s.get_raw_f52() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 12) as i64) >> 12;
            assert!(s.get_f52() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_4::new(&mut c[..]); m.set_f52(v); }
            assert!(updated::<true>(&b[45..52], &c[45..52], 0, 52, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 45, 52), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_4::new(&mut c[..]); m.set_raw_f52(r); }
            assert!(updated::<true>(&b[45..52], &c[45..52], 0, 52, r as u64) && others(&b, &c, 45, 52), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 51 && v as i64 <= (1u64 << 51) as i64 - 1 || 52 == 64 {
                let mut c = b;
                { let mut m = S0_4::new(&mut c[..]); m.set_f52(v); }
                assert!(S0_4::new(&c[..]).get_f52() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o0_g5() {
        use crate::ibet::*;
        const N: usize = 61;
        assert!(<S0_5<()> as FixedSize>::SIZE == N && SIZE_S0_5 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S0_5::new(&b[..]);
        {
            let raw = field::<true>(&b[0..7], 0, 53);
            assert!(s.get_raw_f53() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 11) as i64) >> 11;
            assert!(s.get_f53() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_5::new(&mut c[..]); m.set_f53(v); }
            assert!(updated::<true>(&b[0..7], &c[0..7], 0, 53, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_5::new(&mut c[..]); m.set_raw_f53(r); }
            assert!(updated::<true>(&b[0..7], &c[0..7], 0, 53, r as u64) && others(&b, &c, 0, 7), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 52 && v as i64 <= (1u64 << 52) as i64 - 1 || 53 == 64 {
                let mut c = b;
                { let mut m = S0_5::new(&mut c[..]); m.set_f53(v); }
                assert!(S0_5::new(&c[..]).get_f53() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[7..14], 0, 54);
            assert!(s.get_raw_f54() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 10) as i64) >> 10;
            assert!(s.get_f54() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_5::new(&mut c[..]); m.set_f54(v); }
            assert!(updated::<true>(&b[7..14], &c[7..14], 0, 54, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 14), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_5::new(&mut c[..]); m.set_raw_f54(r); }
            assert!(updated::<true>(&b[7..14], &c[7..14], 0, 54, r as u64) && others(&b, &c, 7, 14), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 53 && v as i64 <= (1u64 << 53) as i64 - 1 || 54 == 64 {
                let mut c = b;
                { let mut m = S0_5::new(&mut c[..]); m.set_f54(v); }
                assert!(S0_5::new(&c[..]).get_f54() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[14..21], 0, 55);
            assert!(s.get_raw_f55() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 9) as i64) >> 9;
            assert!(s.get_f55() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_5::new(&mut c[..]); m.set_f55(v); }
            assert!(updated::<true>(&b[14..21], &c[14..21], 0, 55, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 14, 21), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_5::new(&mut c[..]); m.set_raw_f55(r); }
            assert!(updated::<true>(&b[14..21], &c[14..21], 0, 55, r as u64) && others(&b, &c, 14, 21), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 54 && v as i64 <= (1u64 << 54) as i64 - 1 || 55 == 64 {
                let mut c = b;
                { let mut m = S0_5::new(&mut c[..]); m.set_f55(v); }
                assert!(S0_5::new(&c[..]).get_f55() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[21..29], 0, 58);
            assert!(s.get_raw_f58() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 6) as i64) >> 6;
            assert!(s.get_f58() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_5::new(&mut c[..]); m.set_f58(v); }
            assert!(updated::<true>(&b[21..29], &c[21..29], 0, 58, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 21, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_5::new(&mut c[..]); m.set_raw_f58(r); }
            assert!(updated::<true>(&b[21..29], &c[21..29], 0, 58, r as u64) && others(&b, &c, 21, 29), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 57 && v as i64 <= (1u64 << 57) as i64 - 1 || 58 == 64 {
                let mut c = b;
                { let mut m = S0_5::new(&mut c[..]); m.set_f58(v); }
                assert!(S0_5::new(&c[..]).get_f58() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[29..37], 0, 59);
            assert!(s.get_raw_f59() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 5) as i64) >> 5;
            assert!(s.get_f59() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_5::new(&mut c[..]); m.set_f59(v); }
            assert!(updated::<true>(&b[29..37], &c[29..37], 0, 59, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 29, 37), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_5::new(&mut c[..]); m.set_raw_f59(r); }
            assert!(updated::<true>(&b[29..37], &c[29..37], 0, 59, r as u64) && others(&b, &c, 29, 37), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 58 && v as i64 <= (1u64 << 58) as i64 - 1 || 59 == 64 {
                let mut c = b;
                { let mut m = S0_5::new(&mut c[..]); m.set_f59(v); }
                assert!(S0_5::new(&c[..]).get_f59() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[37..45], 0, 60);
            assert!(s.get_raw_f60() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 4) as i64) >> 4;
            assert!(s.get_f60() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_5::new(&mut c[..]); m.set_f60(v); }
            assert!(updated::<true>(&b[37..45], &c[37..45], 0, 60, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 37, 45), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_5::new(&mut c[..]); m.set_raw_f60(r); }
            assert!(updated::<true>(&b[37..45], &c[37..45], 0, 60, r as u64) && others(&b, &c, 37, 45), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 59 && v as i64 <= (1u64 << 59) as i64 - 1 || 60 == 64 {
                let mut c = b;
                { let mut m = S0_5::new(&mut c[..]); m.set_f60(v); }
                assert!(S0_5::new(&c[..]).get_f60() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[45..53], 0, 61);
            assert!(s.get_raw_f61() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 3) as i64) >> 3;
            assert!(s.get_f61() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_5::new(&mut c[..]); m.set_f61(v); }
            assert!(updated::<true>(&b[45..53], &c[45..53], 0, 61, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 45, 53), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_5::new(&mut c[..]); m.set_raw_f61(r); }
            assert!(updated::<true>(&b[45..53], &c[45..53], 0, 61, r as u64) && others(&b, &c, 45, 53), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 60 && v as i64 <= (1u64 << 60) as i64 - 1 || 61 == 64 {
                let mut c = b;
                { let mut m = S0_5::new(&mut c[..]); m.set_f61(v); }
                assert!(S0_5::new(&c[..]).get_f61() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[53..61], 0, 62);
            assert!(s.get_raw_f62() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 2) as i64) >> 2;
            assert!(s.get_f62() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S0_5::new(&mut c[..]); m.set_f62(v); }
            assert!(updated::<true>(&b[53..61], &c[53..61], 0, 62, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 53, 61), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S0_5::new(&mut c[..]); m.set_raw_f62(r); }
            assert!(updated::<true>(&b[53..61], &c[53..61], 0, 62, r as u64) && others(&b, &c, 53, 61), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 61 && v as i64 <= (1u64 << 61) as i64 - 1 || 62 == 64 {
                let mut c = b;
                { let mut m = S0_5::new(&mut c[..]); m.set_f62(v); }
                assert!(S0_5::new(&c[..]).get_f62() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o1_g0() {
        use crate::ibet::*;
        const N: usize = 12;
        assert!(<S1_0<()> as FixedSize>::SIZE == N && SIZE_S1_0 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S1_0::new(&b[..]);
        {
            let raw = field::<true>(&b[0..1], 1, 2);
            assert!(s.get_raw_f2() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 62) as i64) >> 62;
            assert!(s.get_f2() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_0::new(&mut c[..]); m.set_f2(v); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 1, 2, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_0::new(&mut c[..]); m.set_raw_f2(r); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 1, 2, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 1 && v as i64 <= (1u64 << 1) as i64 - 1 || 2 == 64 {
                let mut c = b;
                { let mut m = S1_0::new(&mut c[..]); m.set_f2(v); }
                assert!(S1_0::new(&c[..]).get_f2() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[1..2], 1, 4);
            assert!(s.get_raw_f4() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 60) as i64) >> 60;
            assert!(s.get_f4() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_0::new(&mut c[..]); m.set_f4(v); }
            assert!(updated::<true>(&b[1..2], &c[1..2], 1, 4, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_0::new(&mut c[..]); m.set_raw_f4(r); }
            assert!(updated::<true>(&b[1..2], &c[1..2], 1, 4, r as u64) && others(&b, &c, 1, 2), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 3 && v as i64 <= (1u64 << 3) as i64 - 1 || 4 == 64 {
                let mut c = b;
                { let mut m = S1_0::new(&mut c[..]); m.set_f4(v); }
                assert!(S1_0::new(&c[..]).get_f4() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[2..3], 1, 5);
            assert!(s.get_raw_f5() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 59) as i64) >> 59;
            assert!(s.get_f5() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_0::new(&mut c[..]); m.set_f5(v); }
            assert!(updated::<true>(&b[2..3], &c[2..3], 1, 5, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_0::new(&mut c[..]); m.set_raw_f5(r); }
            assert!(updated::<true>(&b[2..3], &c[2..3], 1, 5, r as u64) && others(&b, &c, 2, 3), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 4 && v as i64 <= (1u64 << 4) as i64 - 1 || 5 == 64 {
                let mut c = b;
                { let mut m = S1_0::new(&mut c[..]); m.set_f5(v); }
                assert!(S1_0::new(&c[..]).get_f5() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[3..4], 1, 6);
            assert!(s.get_raw_f6() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 58) as i64) >> 58;
            assert!(s.get_f6() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_0::new(&mut c[..]); m.set_f6(v); }
            assert!(updated::<true>(&b[3..4], &c[3..4], 1, 6, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_0::new(&mut c[..]); m.set_raw_f6(r); }
            assert!(updated::<true>(&b[3..4], &c[3..4], 1, 6, r as u64) && others(&b, &c, 3, 4), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 5 && v as i64 <= (1u64 << 5) as i64 - 1 || 6 == 64 {
                let mut c = b;
                { let mut m = S1_0::new(&mut c[..]); m.set_f6(v); }
                assert!(S1_0::new(&c[..]).get_f6() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[4..6], 1, 10);
            assert!(s.get_raw_f10() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 54) as i64) >> 54;
            assert!(s.get_f10() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_0::new(&mut c[..]); m.set_f10(v); }
            assert!(updated::<true>(&b[4..6], &c[4..6], 1, 10, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_0::new(&mut c[..]); m.set_raw_f10(r); }
            assert!(updated::<true>(&b[4..6], &c[4..6], 1, 10, r as u64) && others(&b, &c, 4, 6), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 9 && v as i64 <= (1u64 << 9) as i64 - 1 || 10 == 64 {
                let mut c = b;
                { let mut m = S1_0::new(&mut c[..]); m.set_f10(v); }
                assert!(S1_0::new(&c[..]).get_f10() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[6..8], 1, 11);
            assert!(s.get_raw_f11() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 53) as i64) >> 53;
            assert!(s.get_f11() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_0::new(&mut c[..]); m.set_f11(v); }
            assert!(updated::<true>(&b[6..8], &c[6..8], 1, 11, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_0::new(&mut c[..]); m.set_raw_f11(r); }
            assert!(updated::<true>(&b[6..8], &c[6..8], 1, 11, r as u64) && others(&b, &c, 6, 8), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 10 && v as i64 <= (1u64 << 10) as i64 - 1 || 11 == 64 {
                let mut c = b;
                { let mut m = S1_0::new(&mut c[..]); m.set_f11(v); }
                assert!(S1_0::new(&c[..]).get_f11() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[8..10], 1, 12);
            assert!(s.get_raw_f12() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 52) as i64) >> 52;
            assert!(s.get_f12() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_0::new(&mut c[..]); m.set_f12(v); }
            assert!(updated::<true>(&b[8..10], &c[8..10], 1, 12, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 8, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_0::new(&mut c[..]); m.set_raw_f12(r); }
            assert!(updated::<true>(&b[8..10], &c[8..10], 1, 12, r as u64) && others(&b, &c, 8, 10), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 11 && v as i64 <= (1u64 << 11) as i64 - 1 || 12 == 64 {
                let mut c = b;
                { let mut m = S1_0::new(&mut c[..]); m.set_f12(v); }
                assert!(S1_0::new(&c[..]).get_f12() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[10..12], 1, 13);
            assert!(s.get_raw_f13() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 51) as i64) >> 51;
            assert!(s.get_f13() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_0::new(&mut c[..]); m.set_f13(v); }
            assert!(updated::<true>(&b[10..12], &c[10..12], 1, 13, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 12), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_0::new(&mut c[..]); m.set_raw_f13(r); }
            assert!(updated::<true>(&b[10..12], &c[10..12], 1, 13, r as u64) && others(&b, &c, 10, 12), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 12 && v as i64 <= (1u64 << 12) as i64 - 1 || 13 == 64 {
                let mut c = b;
                { let mut m = S1_0::new(&mut c[..]); m.set_f13(v); }
                assert!(S1_0::new(&c[..]).get_f13() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o1_g1() {
        use crate::ibet::*;
        const N: usize = 22;
        assert!(<S1_1<()> as FixedSize>::SIZE == N && SIZE_S1_1 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S1_1::new(&b[..]);
        {
            let raw = field::<true>(&b[0..2], 1, 14);
            assert!(s.get_raw_f14() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 50) as i64) >> 50;
            assert!(s.get_f14() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_1::new(&mut c[..]); m.set_f14(v); }
            assert!(updated::<true>(&b[0..2], &c[0..2], 1, 14, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_1::new(&mut c[..]); m.set_raw_f14(r); }
            assert!(updated::<true>(&b[0..2], &c[0..2], 1, 14, r as u64) && others(&b, &c, 0, 2), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 13 && v as i64 <= (1u64 << 13) as i64 - 1 || 14 == 64 {
                let mut c = b;
                { let mut m = S1_1::new(&mut c[..]); m.set_f14(v); }
                assert!(S1_1::new(&c[..]).get_f14() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[2..4], 1, 15);
            assert!(s.get_raw_f15() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 49) as i64) >> 49;
            assert!(s.get_f15() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_1::new(&mut c[..]); m.set_f15(v); }
            assert!(updated::<true>(&b[2..4], &c[2..4], 1, 15, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_1::new(&mut c[..]); m.set_raw_f15(r); }
            assert!(updated::<true>(&b[2..4], &c[2..4], 1, 15, r as u64) && others(&b, &c, 2, 4), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 14 && v as i64 <= (1u64 << 14) as i64 - 1 || 15 == 64 {
                let mut c = b;
                { let mut m = S1_1::new(&mut c[..]); m.set_f15(v); }
                assert!(S1_1::new(&c[..]).get_f15() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[4..7], 1, 18);
            assert!(s.get_raw_f18() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 46) as i64) >> 46;
            assert!(s.get_f18() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_1::new(&mut c[..]); m.set_f18(v); }
            assert!(updated::<true>(&b[4..7], &c[4..7], 1, 18, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_1::new(&mut c[..]); m.set_raw_f18(r); }
            assert!(updated::<true>(&b[4..7], &c[4..7], 1, 18, r as u64) && others(&b, &c, 4, 7), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 17 && v as i64 <= (1u64 << 17) as i64 - 1 || 18 == 64 {
                let mut c = b;
                { let mut m = S1_1::new(&mut c[..]); m.set_f18(v); }
                assert!(S1_1::new(&c[..]).get_f18() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[7..10], 1, 19);
            assert!(s.get_raw_f19() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 45) as i64) >> 45;
            assert!(s.get_f19() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_1::new(&mut c[..]); m.set_f19(v); }
            assert!(updated::<true>(&b[7..10], &c[7..10], 1, 19, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_1::new(&mut c[..]); m.set_raw_f19(r); }
            assert!(updated::<true>(&b[7..10], &c[7..10], 1, 19, r as u64) && others(&b, &c, 7, 10), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 18 && v as i64 <= (1u64 << 18) as i64 - 1 || 19 == 64 {
                let mut c = b;
                { let mut m = S1_1::new(&mut c[..]); m.set_f19(v); }
                assert!(S1_1::new(&c[..]).get_f19() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[10..13], 1, 20);
            assert!(s.get_raw_f20() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 44) as i64) >> 44;
            assert!(s.get_f20() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_1::new(&mut c[..]); m.set_f20(v); }
            assert!(updated::<true>(&b[10..13], &c[10..13], 1, 20, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_1::new(&mut c[..]); m.set_raw_f20(r); }
            assert!(updated::<true>(&b[10..13], &c[10..13], 1, 20, r as u64) && others(&b, &c, 10, 13), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 19 && v as i64 <= (1u64 << 19) as i64 - 1 || 20 == 64 {
                let mut c = b;
                { let mut m = S1_1::new(&mut c[..]); m.set_f20(v); }
                assert!(S1_1::new(&c[..]).get_f20() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[13..16], 1, 21);
            assert!(s.get_raw_f21() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 43) as i64) >> 43;
            assert!(s.get_f21() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_1::new(&mut c[..]); m.set_f21(v); }
            assert!(updated::<true>(&b[13..16], &c[13..16], 1, 21, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 13, 16), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_1::new(&mut c[..]); m.set_raw_f21(r); }
            assert!(updated::<true>(&b[13..16], &c[13..16], 1, 21, r as u64) && others(&b, &c, 13, 16), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 20 && v as i64 <= (1u64 << 20) as i64 - 1 || 21 == 64 {
                let mut c = b;
                { let mut m = S1_1::new(&mut c[..]); m.set_f21(v); }
                assert!(S1_1::new(&c[..]).get_f21() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[16..19], 1, 22);
            assert!(s.get_raw_f22() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 42) as i64) >> 42;
            assert!(s.get_f22() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_1::new(&mut c[..]); m.set_f22(v); }
            assert!(updated::<true>(&b[16..19], &c[16..19], 1, 22, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_1::new(&mut c[..]); m.set_raw_f22(r); }
            assert!(updated::<true>(&b[16..19], &c[16..19], 1, 22, r as u64) && others(&b, &c, 16, 19), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 21 && v as i64 <= (1u64 << 21) as i64 - 1 || 22 == 64 {
                let mut c = b;
                { let mut m = S1_1::new(&mut c[..]); m.set_f22(v); }
                assert!(S1_1::new(&c[..]).get_f22() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[19..22], 1, 23);
            assert!(s.get_raw_f23() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 41) as i64) >> 41;
            assert!(s.get_f23() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_1::new(&mut c[..]); m.set_f23(v); }
            assert!(updated::<true>(&b[19..22], &c[19..22], 1, 23, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 19, 22), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_1::new(&mut c[..]); m.set_raw_f23(r); }
            assert!(updated::<true>(&b[19..22], &c[19..22], 1, 23, r as u64) && others(&b, &c, 19, 22), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 22 && v as i64 <= (1u64 << 22) as i64 - 1 || 23 == 64 {
                let mut c = b;
                { let mut m = S1_1::new(&mut c[..]); m.set_f23(v); }
                assert!(S1_1::new(&c[..]).get_f23() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o1_g2() {
        use crate::ibet::*;
        const N: usize = 34;
        assert!(<S1_2<()> as FixedSize>::SIZE == N && SIZE_S1_2 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S1_2::new(&b[..]);
        {
            let raw = field::<true>(&b[0..4], 1, 26);
            assert!(s.get_raw_f26() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 38) as i64) >> 38;
            assert!(s.get_f26() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_2::new(&mut c[..]); m.set_f26(v); }
            assert!(updated::<true>(&b[0..4], &c[0..4], 1, 26, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_2::new(&mut c[..]); m.set_raw_f26(r); }
            assert!(updated::<true>(&b[0..4], &c[0..4], 1, 26, r as u64) && others(&b, &c, 0, 4), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 25 && v as i64 <= (1u64 << 25) as i64 - 1 || 26 == 64 {
                let mut c = b;
                { let mut m = S1_2::new(&mut c[..]); m.set_f26(v); }
                assert!(S1_2::new(&c[..]).get_f26() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[4..8], 1, 27);
            assert!(s.get_raw_f27() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 37) as i64) >> 37;
            assert!(s.get_f27() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_2::new(&mut c[..]); m.set_f27(v); }
            assert!(updated::<true>(&b[4..8], &c[4..8], 1, 27, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_2::new(&mut c[..]); m.set_raw_f27(r); }
            assert!(updated::<true>(&b[4..8], &c[4..8], 1, 27, r as u64) && others(&b, &c, 4, 8), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 26 && v as i64 <= (1u64 << 26) as i64 - 1 || 27 == 64 {
                let mut c = b;
                { let mut m = S1_2::new(&mut c[..]); m.set_f27(v); }
                assert!(S1_2::new(&c[..]).get_f27() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[8..12], 1, 28);
            assert!(s.get_raw_f28() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 36) as i64) >> 36;
            assert!(s.get_f28() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_2::new(&mut c[..]); m.set_f28(v); }
            assert!(updated::<true>(&b[8..12], &c[8..12], 1, 28, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 8, 12), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_2::new(&mut c[..]); m.set_raw_f28(r); }
            assert!(updated::<true>(&b[8..12], &c[8..12], 1, 28, r as u64) && others(&b, &c, 8, 12), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 27 && v as i64 <= (1u64 << 27) as i64 - 1 || 28 == 64 {
                let mut c = b;
                { let mut m = S1_2::new(&mut c[..]); m.set_f28(v); }
                assert!(S1_2::new(&c[..]).get_f28() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[12..16], 1, 29);
            assert!(s.get_raw_f29() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 35) as i64) >> 35;
            assert!(s.get_f29() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_2::new(&mut c[..]); m.set_f29(v); }
            assert!(updated::<true>(&b[12..16], &c[12..16], 1, 29, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 16), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_2::new(&mut c[..]); m.set_raw_f29(r); }
            assert!(updated::<true>(&b[12..16], &c[12..16], 1, 29, r as u64) && others(&b, &c, 12, 16), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 28 && v as i64 <= (1u64 << 28) as i64 - 1 || 29 == 64 {
                let mut c = b;
                { let mut m = S1_2::new(&mut c[..]); m.set_f29(v); }
                assert!(S1_2::new(&c[..]).get_f29() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[16..20], 1, 30);
            assert!(s.get_raw_f30() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 34) as i64) >> 34;
            assert!(s.get_f30() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_2::new(&mut c[..]); m.set_f30(v); }
            assert!(updated::<true>(&b[16..20], &c[16..20], 1, 30, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_2::new(&mut c[..]); m.set_raw_f30(r); }
            assert!(updated::<true>(&b[16..20], &c[16..20], 1, 30, r as u64) && others(&b, &c, 16, 20), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 29 && v as i64 <= (1u64 << 29) as i64 - 1 || 30 == 64 {
                let mut c = b;
                { let mut m = S1_2::new(&mut c[..]); m.set_f30(v); }
                assert!(S1_2::new(&c[..]).get_f30() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[20..24], 1, 31);
            assert!(s.get_raw_f31() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 33) as i64) >> 33;
            assert!(s.get_f31() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_2::new(&mut c[..]); m.set_f31(v); }
            assert!(updated::<true>(&b[20..24], &c[20..24], 1, 31, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 24), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_2::new(&mut c[..]); m.set_raw_f31(r); }
            assert!(updated::<true>(&b[20..24], &c[20..24], 1, 31, r as u64) && others(&b, &c, 20, 24), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 30 && v as i64 <= (1u64 << 30) as i64 - 1 || 31 == 64 {
                let mut c = b;
                { let mut m = S1_2::new(&mut c[..]); m.set_f31(v); }
                assert!(S1_2::new(&c[..]).get_f31() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[24..29], 1, 34);
            assert!(s.get_raw_f34() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 30) as i64) >> 30;
            assert!(s.get_f34() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_2::new(&mut c[..]); m.set_f34(v); }
            assert!(updated::<true>(&b[24..29], &c[24..29], 1, 34, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 24, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_2::new(&mut c[..]); m.set_raw_f34(r); }
            assert!(updated::<true>(&b[24..29], &c[24..29], 1, 34, r as u64) && others(&b, &c, 24, 29), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 33 && v as i64 <= (1u64 << 33) as i64 - 1 || 34 == 64 {
                let mut c = b;
                { let mut m = S1_2::new(&mut c[..]); m.set_f34(v); }
                assert!(S1_2::new(&c[..]).get_f34() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[29..34], 1, 35);
            assert!(s.get_raw_f35() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 29) as i64) >> 29;
            assert!(s.get_f35() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_2::new(&mut c[..]); m.set_f35(v); }
            assert!(updated::<true>(&b[29..34], &c[29..34], 1, 35, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 29, 34), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_2::new(&mut c[..]); m.set_raw_f35(r); }
            assert!(updated::<true>(&b[29..34], &c[29..34], 1, 35, r as u64) && others(&b, &c, 29, 34), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 34 && v as i64 <= (1u64 << 34) as i64 - 1 || 35 == 64 {
                let mut c = b;
                { let mut m = S1_2::new(&mut c[..]); m.set_f35(v); }
                assert!(S1_2::new(&c[..]).get_f35() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o1_g3() {
        use crate::ibet::*;
        const N: usize = 44;
        assert!(<S1_3<()> as FixedSize>::SIZE == N && SIZE_S1_3 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S1_3::new(&b[..]);
        {
            let raw = field::<true>(&b[0..5], 1, 36);
            assert!(s.get_raw_f36() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 28) as i64) >> 28;
            assert!(s.get_f36() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_3::new(&mut c[..]); m.set_f36(v); }
            assert!(updated::<true>(&b[0..5], &c[0..5], 1, 36, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_3::new(&mut c[..]); m.set_raw_f36(r); }
            assert!(updated::<true>(&b[0..5], &c[0..5], 1, 36, r as u64) && others(&b, &c, 0, 5), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 35 && v as i64 <= (1u64 << 35) as i64 - 1 || 36 == 64 {
                let mut c = b;
                { let mut m = S1_3::new(&mut c[..]); m.set_f36(v); }
                assert!(S1_3::new(&c[..]).get_f36() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[5..10], 1, 37);
            assert!(s.get_raw_f37() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 27) as i64) >> 27;
            assert!(s.get_f37() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_3::new(&mut c[..]); m.set_f37(v); }
            assert!(updated::<true>(&b[5..10], &c[5..10], 1, 37, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_3::new(&mut c[..]); m.set_raw_f37(r); }
            assert!(updated::<true>(&b[5..10], &c[5..10], 1, 37, r as u64) && others(&b, &c, 5, 10), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 36 && v as i64 <= (1u64 << 36) as i64 - 1 || 37 == 64 {
                let mut c = b;
                { let mut m = S1_3::new(&mut c[..]); m.set_f37(v); }
                assert!(S1_3::new(&c[..]).get_f37() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[10..15], 1, 38);
            assert!(s.get_raw_f38() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 26) as i64) >> 26;
            assert!(s.get_f38() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_3::new(&mut c[..]); m.set_f38(v); }
            assert!(updated::<true>(&b[10..15], &c[10..15], 1, 38, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 15), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_3::new(&mut c[..]); m.set_raw_f38(r); }
            assert!(updated::<true>(&b[10..15], &c[10..15], 1, 38, r as u64) && others(&b, &c, 10, 15), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 37 && v as i64 <= (1u64 << 37) as i64 - 1 || 38 == 64 {
                let mut c = b;
                { let mut m = S1_3::new(&mut c[..]); m.set_f38(v); }
                assert!(S1_3::new(&c[..]).get_f38() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[15..20], 1, 39);
            assert!(s.get_raw_f39() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 25) as i64) >> 25;
            assert!(s.get_f39() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_3::new(&mut c[..]); m.set_f39(v); }
            assert!(updated::<true>(&b[15..20], &c[15..20], 1, 39, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 15, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_3::new(&mut c[..]); m.set_raw_f39(r); }
            assert!(updated::<true>(&b[15..20], &c[15..20], 1, 39, r as u64) && others(&b, &c, 15, 20), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 38 && v as i64 <= (1u64 << 38) as i64 - 1 || 39 == 64 {
                let mut c = b;
                { let mut m = S1_3::new(&mut c[..]); m.set_f39(v); }
                assert!(S1_3::new(&c[..]).get_f39() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[20..26], 1, 41);
            assert!(s.get_raw_f41() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 23) as i64) >> 23;
            assert!(s.get_f41() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_3::new(&mut c[..]); m.set_f41(v); }
            assert!(updated::<true>(&b[20..26], &c[20..26], 1, 41, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 26), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_3::new(&mut c[..]); m.set_raw_f41(r); }
            assert!(updated::<true>(&b[20..26], &c[20..26], 1, 41, r as u64) && others(&b, &c, 20, 26), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 40 && v as i64 <= (1u64 << 40) as i64 - 1 || 41 == 64 {
                let mut c = b;
                { let mut m = S1_3::new(&mut c[..]); m.set_f41(v); }
                assert!(S1_3::new(&c[..]).get_f41() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[26..32], 1, 42);
            assert!(s.get_raw_f42() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 22) as i64) >> 22;
            assert!(s.get_f42() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_3::new(&mut c[..]); m.set_f42(v); }
            assert!(updated::<true>(&b[26..32], &c[26..32], 1, 42, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 26, 32), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_3::new(&mut c[..]); m.set_raw_f42(r); }
            assert!(updated::<true>(&b[26..32], &c[26..32], 1, 42, r as u64) && others(&b, &c, 26, 32), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 41 && v as i64 <= (1u64 << 41) as i64 - 1 || 42 == 64 {
                let mut c = b;
                { let mut m = S1_3::new(&mut c[..]); m.set_f42(v); }
                assert!(S1_3::new(&c[..]).get_f42() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[32..38], 1, 43);
            assert!(s.get_raw_f43() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 21) as i64) >> 21;
            assert!(s.get_f43() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_3::new(&mut c[..]); m.set_f43(v); }
            assert!(updated::<true>(&b[32..38], &c[32..38], 1, 43, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 32, 38), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_3::new(&mut c[..]); m.set_raw_f43(r); }
            assert!(updated::<true>(&b[32..38], &c[32..38], 1, 43, r as u64) && others(&b, &c, 32, 38), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 42 && v as i64 <= (1u64 << 42) as i64 - 1 || 43 == 64 {
                let mut c = b;
                { let mut m = S1_3::new(&mut c[..]); m.set_f43(v); }
                assert!(S1_3::new(&c[..]).get_f43() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[38..44], 1, 44);
            assert!(s.get_raw_f44() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 20) as i64) >> 20;
            assert!(s.get_f44() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_3::new(&mut c[..]); m.set_f44(v); }
            assert!(updated::<true>(&b[38..44], &c[38..44], 1, 44, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 38, 44), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_3::new(&mut c[..]); m.set_raw_f44(r); }
            assert!(updated::<true>(&b[38..44], &c[38..44], 1, 44, r as u64) && others(&b, &c, 38, 44), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 43 && v as i64 <= (1u64 << 43) as i64 - 1 || 44 == 64 {
                let mut c = b;
                { let mut m = S1_3::new(&mut c[..]); m.set_f44(v); }
                assert!(S1_3::new(&c[..]).get_f44() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o1_g4() {
        use crate::ibet::*;
        const N: usize = 52;
        assert!(<S1_4<()> as FixedSize>::SIZE == N && SIZE_S1_4 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S1_4::new(&b[..]);
        {
            let raw = field::<true>(&b[0..6], 1, 45);
            assert!(s.get_raw_f45() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 19) as i64) >> 19;
            assert!(s.get_f45() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_4::new(&mut c[..]); m.set_f45(v); }
            assert!(updated::<true>(&b[0..6], &c[0..6], 1, 45, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_4::new(&mut c[..]); m.set_raw_f45(r); }
            assert!(updated::<true>(&b[0..6], &c[0..6], 1, 45, r as u64) && others(&b, &c, 0, 6), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 44 && v as i64 <= (1u64 << 44) as i64 - 1 || 45 == 64 {
                let mut c = b;
                { let mut m = S1_4::new(&mut c[..]); m.set_f45(v); }
                assert!(S1_4::new(&c[..]).get_f45() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[6..12], 1, 46);
            assert!(s.get_raw_f46() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 18) as i64) >> 18;
            assert!(s.get_f46() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_4::new(&mut c[..]); m.set_f46(v); }
            assert!(updated::<true>(&b[6..12], &c[6..12], 1, 46, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 12), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_4::new(&mut c[..]); m.set_raw_f46(r); }
            assert!(updated::<true>(&b[6..12], &c[6..12], 1, 46, r as u64) && others(&b, &c, 6, 12), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 45 && v as i64 <= (1u64 << 45) as i64 - 1 || 46 == 64 {
                let mut c = b;
                { let mut m = S1_4::new(&mut c[..]); m.set_f46(v); }
                assert!(S1_4::new(&c[..]).get_f46() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[12..18], 1, 47);
            assert!(s.get_raw_f47() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 17) as i64) >> 17;
            assert!(s.get_f47() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_4::new(&mut c[..]); m.set_f47(v); }
            assert!(updated::<true>(&b[12..18], &c[12..18], 1, 47, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 18), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_4::new(&mut c[..]); m.set_raw_f47(r); }
            assert!(updated::<true>(&b[12..18], &c[12..18], 1, 47, r as u64) && others(&b, &c, 12, 18), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 46 && v as i64 <= (1u64 << 46) as i64 - 1 || 47 == 64 {
                let mut c = b;
                { let mut m = S1_4::new(&mut c[..]); m.set_f47(v); }
                assert!(S1_4::new(&c[..]).get_f47() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[18..25], 1, 48);
            assert!(s.get_raw_f48() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 16) as i64) >> 16;
            assert!(s.get_f48() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_4::new(&mut c[..]); m.set_f48(v); }
            assert!(updated::<true>(&b[18..25], &c[18..25], 1, 48, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 18, 25), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_4::new(&mut c[..]); m.set_raw_f48(r); }
            assert!(updated::<true>(&b[18..25], &c[18..25], 1, 48, r as u64) && others(&b, &c, 18, 25), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 47 && v as i64 <= (1u64 << 47) as i64 - 1 || 48 == 64 {
                let mut c = b;
                { let mut m = S1_4::new(&mut c[..]); m.set_f48(v); }
                assert!(S1_4::new(&c[..]).get_f48() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[24..31], 1, 49);
            assert!(s.get_raw_f49() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 15) as i64) >> 15;
            assert!(s.get_f49() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_4::new(&mut c[..]); m.set_f49(v); }
            assert!(updated::<true>(&b[24..31], &c[24..31], 1, 49, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 24, 31), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_4::new(&mut c[..]); m.set_raw_f49(r); }
            assert!(updated::<true>(&b[24..31], &c[24..31], 1, 49, r as u64) && others(&b, &c, 24, 31), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 48 && v as i64 <= (1u64 << 48) as i64 - 1 || 49 == 64 {
                let mut c = b;
                { let mut m = S1_4::new(&mut c[..]); m.set_f49(v); }
                assert!(S1_4::new(&c[..]).get_f49() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[31..38], 1, 50);
            assert!(s.get_raw_f50() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 14) as i64) >> 14;
            assert!(s.get_f50() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_4::new(&mut c[..]); m.set_f50(v); }
            assert!(updated::<true>(&b[31..38], &c[31..38], 1, 50, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 31, 38), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_4::new(&mut c[..]); m.set_raw_f50(r); }
            assert!(updated::<true>(&b[31..38], &c[31..38], 1, 50, r as u64) && others(&b, &c, 31, 38), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 49 && v as i64 <= (1u64 << 49) as i64 - 1 || 50 == 64 {
                let mut c = b;
                { let mut m = S1_4::new(&mut c[..]); m.set_f50(v); }
                assert!(S1_4::new(&c[..]).get_f50() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[38..45], 1, 51);
            assert!(s.get_raw_f51() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 13) as i64) >> 13;
            assert!(s.get_f51() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_4::new(&mut c[..]); m.set_f51(v); }
            assert!(updated::<true>(&b[38..45], &c[38..45], 1, 51, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 38, 45), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_4::new(&mut c[..]); m.set_raw_f51(r); }
            assert!(updated::<true>(&b[38..45], &c[38..45], 1, 51, r as u64) && others(&b, &c, 38, 45), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 50 && v as i64 <= (1u64 << 50) as i64 - 1 || 51 == 64 {
                let mut c = b;
                { let mut m = S1_4::new(&mut c[..]); m.set_f51(v); }
                assert!(S1_4::new(&c[..]).get_f51() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[45..52], 1, 52);
            assert!(s.get_raw_f52() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 12) as i64) >> 12;
            assert!(s.get_f52() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_4::new(&mut c[..]); m.set_f52(v); }
            assert!(updated::<true>(&b[45..52], &c[45..52], 1, 52, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 45, 52), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_4::new(&mut c[..]); m.set_raw_f52(r); }
            assert!(updated::<true>(&b[45..52], &c[45..52], 1, 52, r as u64) && others(&b, &c, 45, 52), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 51 && v as i64 <= (1u64 << 51) as i64 - 1 || 52 == 64 {
                let mut c = b;
                { let mut m = S1_4::new(&mut c[..]); m.set_f52(v); }
                assert!(S1_4::new(&c[..]).get_f52() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o1_g5() {
        use crate::ibet::*;
        const N: usize = 61;
        assert!(<S1_5<()> as FixedSize>::SIZE == N && SIZE_S1_5 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S1_5::new(&b[..]);
        {
            let raw = field::<true>(&b[0..7], 1, 53);
            assert!(s.get_raw_f53() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 11) as i64) >> 11;
            assert!(s.get_f53() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_5::new(&mut c[..]); m.set_f53(v); }
            assert!(updated::<true>(&b[0..7], &c[0..7], 1, 53, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_5::new(&mut c[..]); m.set_raw_f53(r); }
            assert!(updated::<true>(&b[0..7], &c[0..7], 1, 53, r as u64) && others(&b, &c, 0, 7), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 52 && v as i64 <= (1u64 << 52) as i64 - 1 || 53 == 64 {
                let mut c = b;
                { let mut m = S1_5::new(&mut c[..]); m.set_f53(v); }
                assert!(S1_5::new(&c[..]).get_f53() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[7..14], 1, 54);
            assert!(s.get_raw_f54() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 10) as i64) >> 10;
            assert!(s.get_f54() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_5::new(&mut c[..]); m.set_f54(v); }
            assert!(updated::<true>(&b[7..14], &c[7..14], 1, 54, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 14), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_5::new(&mut c[..]); m.set_raw_f54(r); }
            assert!(updated::<true>(&b[7..14], &c[7..14], 1, 54, r as u64) && others(&b, &c, 7, 14), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 53 && v as i64 <= (1u64 << 53) as i64 - 1 || 54 == 64 {
                let mut c = b;
                { let mut m = S1_5::new(&mut c[..]); m.set_f54(v); }
                assert!(S1_5::new(&c[..]).get_f54() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[14..21], 1, 55);
            assert!(s.get_raw_f55() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 9) as i64) >> 9;
            assert!(s.get_f55() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_5::new(&mut c[..]); m.set_f55(v); }
            assert!(updated::<true>(&b[14..21], &c[14..21], 1, 55, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 14, 21), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_5::new(&mut c[..]); m.set_raw_f55(r); }
            assert!(updated::<true>(&b[14..21], &c[14..21], 1, 55, r as u64) && others(&b, &c, 14, 21), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 54 && v as i64 <= (1u64 << 54) as i64 - 1 || 55 == 64 {
                let mut c = b;
                { let mut m = S1_5::new(&mut c[..]); m.set_f55(v); }
                assert!(S1_5::new(&c[..]).get_f55() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[21..29], 1, 58);
            assert!(s.get_raw_f58() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 6) as i64) >> 6;
            assert!(s.get_f58() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_5::new(&mut c[..]); m.set_f58(v); }
            assert!(updated::<true>(&b[21..29], &c[21..29], 1, 58, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 21, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_5::new(&mut c[..]); m.set_raw_f58(r); }
            assert!(updated::<true>(&b[21..29], &c[21..29], 1, 58, r as u64) && others(&b, &c, 21, 29), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 57 && v as i64 <= (1u64 << 57) as i64 - 1 || 58 == 64 {
                let mut c = b;
                { let mut m = S1_5::new(&mut c[..]); m.set_f58(v); }
                assert!(S1_5::new(&c[..]).get_f58() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[29..37], 1, 59);
            assert!(s.get_raw_f59() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 5) as i64) >> 5;
            assert!(s.get_f59() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_5::new(&mut c[..]); m.set_f59(v); }
            assert!(updated::<true>(&b[29..37], &c[29..37], 1, 59, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 29, 37), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_5::new(&mut c[..]); m.set_raw_f59(r); }
            assert!(updated::<true>(&b[29..37], &c[29..37], 1, 59, r as u64) && others(&b, &c, 29, 37), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 58 && v as i64 <= (1u64 << 58) as i64 - 1 || 59 == 64 {
                let mut c = b;
                { let mut m = S1_5::new(&mut c[..]); m.set_f59(v); }
                assert!(S1_5::new(&c[..]).get_f59() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[37..45], 1, 60);
            assert!(s.get_raw_f60() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 4) as i64) >> 4;
            assert!(s.get_f60() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_5::new(&mut c[..]); m.set_f60(v); }
            assert!(updated::<true>(&b[37..45], &c[37..45], 1, 60, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 37, 45), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_5::new(&mut c[..]); m.set_raw_f60(r); }
            assert!(updated::<true>(&b[37..45], &c[37..45], 1, 60, r as u64) && others(&b, &c, 37, 45), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 59 && v as i64 <= (1u64 << 59) as i64 - 1 || 60 == 64 {
                let mut c = b;
                { let mut m = S1_5::new(&mut c[..]); m.set_f60(v); }
                assert!(S1_5::new(&c[..]).get_f60() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[45..53], 1, 61);
            assert!(s.get_raw_f61() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 3) as i64) >> 3;
            assert!(s.get_f61() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_5::new(&mut c[..]); m.set_f61(v); }
            assert!(updated::<true>(&b[45..53], &c[45..53], 1, 61, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 45, 53), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_5::new(&mut c[..]); m.set_raw_f61(r); }
            assert!(updated::<true>(&b[45..53], &c[45..53], 1, 61, r as u64) && others(&b, &c, 45, 53), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 60 && v as i64 <= (1u64 << 60) as i64 - 1 || 61 == 64 {
                let mut c = b;
                { let mut m = S1_5::new(&mut c[..]); m.set_f61(v); }
                assert!(S1_5::new(&c[..]).get_f61() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[53..61], 1, 62);
            assert!(s.get_raw_f62() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 2) as i64) >> 2;
            assert!(s.get_f62() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S1_5::new(&mut c[..]); m.set_f62(v); }
            assert!(updated::<true>(&b[53..61], &c[53..61], 1, 62, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 53, 61), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S1_5::new(&mut c[..]); m.set_raw_f62(r); }
            assert!(updated::<true>(&b[53..61], &c[53..61], 1, 62, r as u64) && others(&b, &c, 53, 61), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 61 && v as i64 <= (1u64 << 61) as i64 - 1 || 62 == 64 {
                let mut c = b;
                { let mut m = S1_5::new(&mut c[..]); m.set_f62(v); }
                assert!(S1_5::new(&c[..]).get_f62() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o2_g0() {
        use crate::ibet::*;
        const N: usize = 12;
        assert!(<S2_0<()> as FixedSize>::SIZE == N && SIZE_S2_0 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S2_0::new(&b[..]);
        {
            let raw = field::<true>(&b[0..1], 2, 2);
            assert!(s.get_raw_f2() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 62) as i64) >> 62;
            assert!(s.get_f2() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_0::new(&mut c[..]); m.set_f2(v); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 2, 2, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_0::new(&mut c[..]); m.set_raw_f2(r); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 2, 2, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 1 && v as i64 <= (1u64 << 1) as i64 - 1 || 2 == 64 {
                let mut c = b;
                { let mut m = S2_0::new(&mut c[..]); m.set_f2(v); }
                assert!(S2_0::new(&c[..]).get_f2() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[1..2], 2, 4);
            assert!(s.get_raw_f4() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 60) as i64) >> 60;
            assert!(s.get_f4() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_0::new(&mut c[..]); m.set_f4(v); }
            assert!(updated::<true>(&b[1..2], &c[1..2], 2, 4, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_0::new(&mut c[..]); m.set_raw_f4(r); }
            assert!(updated::<true>(&b[1..2], &c[1..2], 2, 4, r as u64) && others(&b, &c, 1, 2), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 3 && v as i64 <= (1u64 << 3) as i64 - 1 || 4 == 64 {
                let mut c = b;
                { let mut m = S2_0::new(&mut c[..]); m.set_f4(v); }
                assert!(S2_0::new(&c[..]).get_f4() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[2..3], 2, 5);
            assert!(s.get_raw_f5() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 59) as i64) >> 59;
            assert!(s.get_f5() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_0::new(&mut c[..]); m.set_f5(v); }
            assert!(updated::<true>(&b[2..3], &c[2..3], 2, 5, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_0::new(&mut c[..]); m.set_raw_f5(r); }
            assert!(updated::<true>(&b[2..3], &c[2..3], 2, 5, r as u64) && others(&b, &c, 2, 3), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 4 && v as i64 <= (1u64 << 4) as i64 - 1 || 5 == 64 {
                let mut c = b;
                { let mut m = S2_0::new(&mut c[..]); m.set_f5(v); }
                assert!(S2_0::new(&c[..]).get_f5() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[3..4], 2, 6);
            assert!(s.get_raw_f6() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 58) as i64) >> 58;
            assert!(s.get_f6() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_0::new(&mut c[..]); m.set_f6(v); }
            assert!(updated::<true>(&b[3..4], &c[3..4], 2, 6, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_0::new(&mut c[..]); m.set_raw_f6(r); }
            assert!(updated::<true>(&b[3..4], &c[3..4], 2, 6, r as u64) && others(&b, &c, 3, 4), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 5 && v as i64 <= (1u64 << 5) as i64 - 1 || 6 == 64 {
                let mut c = b;
                { let mut m = S2_0::new(&mut c[..]); m.set_f6(v); }
                assert!(S2_0::new(&c[..]).get_f6() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[4..6], 2, 10);
            assert!(s.get_raw_f10() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 54) as i64) >> 54;
            assert!(s.get_f10() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_0::new(&mut c[..]); m.set_f10(v); }
            assert!(updated::<true>(&b[4..6], &c[4..6], 2, 10, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_0::new(&mut c[..]); m.set_raw_f10(r); }
            assert!(updated::<true>(&b[4..6], &c[4..6], 2, 10, r as u64) && others(&b, &c, 4, 6), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 9 && v as i64 <= (1u64 << 9) as i64 - 1 || 10 == 64 {
                let mut c = b;
                { let mut m = S2_0::new(&mut c[..]); m.set_f10(v); }
                assert!(S2_0::new(&c[..]).get_f10() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[6..8], 2, 11);
            assert!(s.get_raw_f11() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 53) as i64) >> 53;
            assert!(s.get_f11() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_0::new(&mut c[..]); m.set_f11(v); }
            assert!(updated::<true>(&b[6..8], &c[6..8], 2, 11, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_0::new(&mut c[..]); m.set_raw_f11(r); }
            assert!(updated::<true>(&b[6..8], &c[6..8], 2, 11, r as u64) && others(&b, &c, 6, 8), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 10 && v as i64 <= (1u64 << 10) as i64 - 1 || 11 == 64 {
                let mut c = b;
                { let mut m = S2_0::new(&mut c[..]); m.set_f11(v); }
                assert!(S2_0::new(&c[..]).get_f11() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[8..10], 2, 12);
            assert!(s.get_raw_f12() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 52) as i64) >> 52;
            assert!(s.get_f12() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_0::new(&mut c[..]); m.set_f12(v); }
            assert!(updated::<true>(&b[8..10], &c[8..10], 2, 12, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 8, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_0::new(&mut c[..]); m.set_raw_f12(r); }
            assert!(updated::<true>(&b[8..10], &c[8..10], 2, 12, r as u64) && others(&b, &c, 8, 10), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 11 && v as i64 <= (1u64 << 11) as i64 - 1 || 12 == 64 {
                let mut c = b;
                { let mut m = S2_0::new(&mut c[..]); m.set_f12(v); }
                assert!(S2_0::new(&c[..]).get_f12() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[10..12], 2, 13);
            assert!(s.get_raw_f13() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 51) as i64) >> 51;
            assert!(s.get_f13() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_0::new(&mut c[..]); m.set_f13(v); }
            assert!(updated::<true>(&b[10..12], &c[10..12], 2, 13, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 12), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_0::new(&mut c[..]); m.set_raw_f13(r); }
            assert!(updated::<true>(&b[10..12], &c[10..12], 2, 13, r as u64) && others(&b, &c, 10, 12), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 12 && v as i64 <= (1u64 << 12) as i64 - 1 || 13 == 64 {
                let mut c = b;
                { let mut m = S2_0::new(&mut c[..]); m.set_f13(v); }
                assert!(S2_0::new(&c[..]).get_f13() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o2_g1() {
        use crate::ibet::*;
        const N: usize = 23;
        assert!(<S2_1<()> as FixedSize>::SIZE == N && SIZE_S2_1 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S2_1::new(&b[..]);
        {
            let raw = field::<true>(&b[0..2], 2, 14);
            assert!(s.get_raw_f14() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 50) as i64) >> 50;
            assert!(s.get_f14() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_1::new(&mut c[..]); m.set_f14(v); }
            assert!(updated::<true>(&b[0..2], &c[0..2], 2, 14, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_1::new(&mut c[..]); m.set_raw_f14(r); }
            assert!(updated::<true>(&b[0..2], &c[0..2], 2, 14, r as u64) && others(&b, &c, 0, 2), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 13 && v as i64 <= (1u64 << 13) as i64 - 1 || 14 == 64 {
                let mut c = b;
                { let mut m = S2_1::new(&mut c[..]); m.set_f14(v); }
                assert!(S2_1::new(&c[..]).get_f14() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[2..5], 2, 15);
            assert!(s.get_raw_f15() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 49) as i64) >> 49;
            assert!(s.get_f15() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_1::new(&mut c[..]); m.set_f15(v); }
            assert!(updated::<true>(&b[2..5], &c[2..5], 2, 15, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_1::new(&mut c[..]); m.set_raw_f15(r); }
            assert!(updated::<true>(&b[2..5], &c[2..5], 2, 15, r as u64) && others(&b, &c, 2, 5), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 14 && v as i64 <= (1u64 << 14) as i64 - 1 || 15 == 64 {
                let mut c = b;
                { let mut m = S2_1::new(&mut c[..]); m.set_f15(v); }
                assert!(S2_1::new(&c[..]).get_f15() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[4..7], 2, 18);
            assert!(s.get_raw_f18() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 46) as i64) >> 46;
            assert!(s.get_f18() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_1::new(&mut c[..]); m.set_f18(v); }
            assert!(updated::<true>(&b[4..7], &c[4..7], 2, 18, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_1::new(&mut c[..]); m.set_raw_f18(r); }
            assert!(updated::<true>(&b[4..7], &c[4..7], 2, 18, r as u64) && others(&b, &c, 4, 7), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 17 && v as i64 <= (1u64 << 17) as i64 - 1 || 18 == 64 {
                let mut c = b;
                { let mut m = S2_1::new(&mut c[..]); m.set_f18(v); }
                assert!(S2_1::new(&c[..]).get_f18() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[7..10], 2, 19);
            assert!(s.get_raw_f19() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 45) as i64) >> 45;
            assert!(s.get_f19() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_1::new(&mut c[..]); m.set_f19(v); }
            assert!(updated::<true>(&b[7..10], &c[7..10], 2, 19, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_1::new(&mut c[..]); m.set_raw_f19(r); }
            assert!(updated::<true>(&b[7..10], &c[7..10], 2, 19, r as u64) && others(&b, &c, 7, 10), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 18 && v as i64 <= (1u64 << 18) as i64 - 1 || 19 == 64 {
                let mut c = b;
                { let mut m = S2_1::new(&mut c[..]); m.set_f19(v); }
                assert!(S2_1::new(&c[..]).get_f19() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[10..13], 2, 20);
            assert!(s.get_raw_f20() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 44) as i64) >> 44;
            assert!(s.get_f20() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_1::new(&mut c[..]); m.set_f20(v); }
            assert!(updated::<true>(&b[10..13], &c[10..13], 2, 20, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_1::new(&mut c[..]); m.set_raw_f20(r); }
            assert!(updated::<true>(&b[10..13], &c[10..13], 2, 20, r as u64) && others(&b, &c, 10, 13), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 19 && v as i64 <= (1u64 << 19) as i64 - 1 || 20 == 64 {
                let mut c = b;
                { let mut m = S2_1::new(&mut c[..]); m.set_f20(v); }
                assert!(S2_1::new(&c[..]).get_f20() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[13..16], 2, 21);
            assert!(s.get_raw_f21() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 43) as i64) >> 43;
            assert!(s.get_f21() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_1::new(&mut c[..]); m.set_f21(v); }
            assert!(updated::<true>(&b[13..16], &c[13..16], 2, 21, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 13, 16), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_1::new(&mut c[..]); m.set_raw_f21(r); }
            assert!(updated::<true>(&b[13..16], &c[13..16], 2, 21, r as u64) && others(&b, &c, 13, 16), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 20 && v as i64 <= (1u64 << 20) as i64 - 1 || 21 == 64 {
                let mut c = b;
                { let mut m = S2_1::new(&mut c[..]); m.set_f21(v); }
                assert!(S2_1::new(&c[..]).get_f21() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[16..19], 2, 22);
            assert!(s.get_raw_f22() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 42) as i64) >> 42;
            assert!(s.get_f22() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_1::new(&mut c[..]); m.set_f22(v); }
            assert!(updated::<true>(&b[16..19], &c[16..19], 2, 22, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_1::new(&mut c[..]); m.set_raw_f22(r); }
            assert!(updated::<true>(&b[16..19], &c[16..19], 2, 22, r as u64) && others(&b, &c, 16, 19), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 21 && v as i64 <= (1u64 << 21) as i64 - 1 || 22 == 64 {
                let mut c = b;
                { let mut m = S2_1::new(&mut c[..]); m.set_f22(v); }
                assert!(S2_1::new(&c[..]).get_f22() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[19..23], 2, 23);
            assert!(s.get_raw_f23() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 41) as i64) >> 41;
            assert!(s.get_f23() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_1::new(&mut c[..]); m.set_f23(v); }
            assert!(updated::<true>(&b[19..23], &c[19..23], 2, 23, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 19, 23), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_1::new(&mut c[..]); m.set_raw_f23(r); }
            assert!(updated::<true>(&b[19..23], &c[19..23], 2, 23, r as u64) && others(&b, &c, 19, 23), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 22 && v as i64 <= (1u64 << 22) as i64 - 1 || 23 == 64 {
                let mut c = b;
                { let mut m = S2_1::new(&mut c[..]); m.set_f23(v); }
                assert!(S2_1::new(&c[..]).get_f23() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o2_g2() {
        use crate::ibet::*;
        const N: usize = 34;
        assert!(<S2_2<()> as FixedSize>::SIZE == N && SIZE_S2_2 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S2_2::new(&b[..]);
        {
            let raw = field::<true>(&b[0..4], 2, 26);
            assert!(s.get_raw_f26() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 38) as i64) >> 38;
            assert!(s.get_f26() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_2::new(&mut c[..]); m.set_f26(v); }
            assert!(updated::<true>(&b[0..4], &c[0..4], 2, 26, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_2::new(&mut c[..]); m.set_raw_f26(r); }
            assert!(updated::<true>(&b[0..4], &c[0..4], 2, 26, r as u64) && others(&b, &c, 0, 4), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 25 && v as i64 <= (1u64 << 25) as i64 - 1 || 26 == 64 {
                let mut c = b;
                { let mut m = S2_2::new(&mut c[..]); m.set_f26(v); }
                assert!(S2_2::new(&c[..]).get_f26() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[4..8], 2, 27);
            assert!(s.get_raw_f27() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 37) as i64) >> 37;
            assert!(s.get_f27() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_2::new(&mut c[..]); m.set_f27(v); }
            assert!(updated::<true>(&b[4..8], &c[4..8], 2, 27, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_2::new(&mut c[..]); m.set_raw_f27(r); }
            assert!(updated::<true>(&b[4..8], &c[4..8], 2, 27, r as u64) && others(&b, &c, 4, 8), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 26 && v as i64 <= (1u64 << 26) as i64 - 1 || 27 == 64 {
                let mut c = b;
                { let mut m = S2_2::new(&mut c[..]); m.set_f27(v); }
                assert!(S2_2::new(&c[..]).get_f27() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[8..12], 2, 28);
            assert!(s.get_raw_f28() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 36) as i64) >> 36;
            assert!(s.get_f28() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_2::new(&mut c[..]); m.set_f28(v); }
            assert!(updated::<true>(&b[8..12], &c[8..12], 2, 28, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 8, 12), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_2::new(&mut c[..]); m.set_raw_f28(r); }
            assert!(updated::<true>(&b[8..12], &c[8..12], 2, 28, r as u64) && others(&b, &c, 8, 12), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 27 && v as i64 <= (1u64 << 27) as i64 - 1 || 28 == 64 {
                let mut c = b;
                { let mut m = S2_2::new(&mut c[..]); m.set_f28(v); }
                assert!(S2_2::new(&c[..]).get_f28() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[12..16], 2, 29);
            assert!(s.get_raw_f29() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 35) as i64) >> 35;
            assert!(s.get_f29() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_2::new(&mut c[..]); m.set_f29(v); }
            assert!(updated::<true>(&b[12..16], &c[12..16], 2, 29, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 16), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_2::new(&mut c[..]); m.set_raw_f29(r); }
            assert!(updated::<true>(&b[12..16], &c[12..16], 2, 29, r as u64) && others(&b, &c, 12, 16), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 28 && v as i64 <= (1u64 << 28) as i64 - 1 || 29 == 64 {
                let mut c = b;
                { let mut m = S2_2::new(&mut c[..]); m.set_f29(v); }
                assert!(S2_2::new(&c[..]).get_f29() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[16..20], 2, 30);
            assert!(s.get_raw_f30() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 34) as i64) >> 34;
            assert!(s.get_f30() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_2::new(&mut c[..]); m.set_f30(v); }
            assert!(updated::<true>(&b[16..20], &c[16..20], 2, 30, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_2::new(&mut c[..]); m.set_raw_f30(r); }
            assert!(updated::<true>(&b[16..20], &c[16..20], 2, 30, r as u64) && others(&b, &c, 16, 20), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 29 && v as i64 <= (1u64 << 29) as i64 - 1 || 30 == 64 {
                let mut c = b;
                { let mut m = S2_2::new(&mut c[..]); m.set_f30(v); }
                assert!(S2_2::new(&c[..]).get_f30() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[20..25], 2, 31);
            assert!(s.get_raw_f31() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 33) as i64) >> 33;
            assert!(s.get_f31() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_2::new(&mut c[..]); m.set_f31(v); }
            assert!(updated::<true>(&b[20..25], &c[20..25], 2, 31, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 25), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_2::new(&mut c[..]); m.set_raw_f31(r); }
            assert!(updated::<true>(&b[20..25], &c[20..25], 2, 31, r as u64) && others(&b, &c, 20, 25), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 30 && v as i64 <= (1u64 << 30) as i64 - 1 || 31 == 64 {
                let mut c = b;
                { let mut m = S2_2::new(&mut c[..]); m.set_f31(v); }
                assert!(S2_2::new(&c[..]).get_f31() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[24..29], 2, 34);
            assert!(s.get_raw_f34() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 30) as i64) >> 30;
            assert!(s.get_f34() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_2::new(&mut c[..]); m.set_f34(v); }
            assert!(updated::<true>(&b[24..29], &c[24..29], 2, 34, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 24, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_2::new(&mut c[..]); m.set_raw_f34(r); }
            assert!(updated::<true>(&b[24..29], &c[24..29], 2, 34, r as u64) && others(&b, &c, 24, 29), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 33 && v as i64 <= (1u64 << 33) as i64 - 1 || 34 == 64 {
                let mut c = b;
                { let mut m = S2_2::new(&mut c[..]); m.set_f34(v); }
                assert!(S2_2::new(&c[..]).get_f34() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[29..34], 2, 35);
            assert!(s.get_raw_f35() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 29) as i64) >> 29;
            assert!(s.get_f35() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_2::new(&mut c[..]); m.set_f35(v); }
            assert!(updated::<true>(&b[29..34], &c[29..34], 2, 35, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 29, 34), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_2::new(&mut c[..]); m.set_raw_f35(r); }
            assert!(updated::<true>(&b[29..34], &c[29..34], 2, 35, r as u64) && others(&b, &c, 29, 34), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 34 && v as i64 <= (1u64 << 34) as i64 - 1 || 35 == 64 {
                let mut c = b;
                { let mut m = S2_2::new(&mut c[..]); m.set_f35(v); }
                assert!(S2_2::new(&c[..]).get_f35() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o2_g3() {
        use crate::ibet::*;
        const N: usize = 44;
        assert!(<S2_3<()> as FixedSize>::SIZE == N && SIZE_S2_3 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S2_3::new(&b[..]);
        {
            let raw = field::<true>(&b[0..5], 2, 36);
            assert!(s.get_raw_f36() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 28) as i64) >> 28;
            assert!(s.get_f36() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_3::new(&mut c[..]); m.set_f36(v); }
            assert!(updated::<true>(&b[0..5], &c[0..5], 2, 36, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_3::new(&mut c[..]); m.set_raw_f36(r); }
            assert!(updated::<true>(&b[0..5], &c[0..5], 2, 36, r as u64) && others(&b, &c, 0, 5), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 35 && v as i64 <= (1u64 << 35) as i64 - 1 || 36 == 64 {
                let mut c = b;
                { let mut m = S2_3::new(&mut c[..]); m.set_f36(v); }
                assert!(S2_3::new(&c[..]).get_f36() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[5..10], 2, 37);
            assert!(s.get_raw_f37() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 27) as i64) >> 27;
            assert!(s.get_f37() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_3::new(&mut c[..]); m.set_f37(v); }
            assert!(updated::<true>(&b[5..10], &c[5..10], 2, 37, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_3::new(&mut c[..]); m.set_raw_f37(r); }
            assert!(updated::<true>(&b[5..10], &c[5..10], 2, 37, r as u64) && others(&b, &c, 5, 10), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 36 && v as i64 <= (1u64 << 36) as i64 - 1 || 37 == 64 {
                let mut c = b;
                { let mut m = S2_3::new(&mut c[..]); m.set_f37(v); }
                assert!(S2_3::new(&c[..]).get_f37() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[10..15], 2, 38);
            assert!(s.get_raw_f38() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 26) as i64) >> 26;
            assert!(s.get_f38() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_3::new(&mut c[..]); m.set_f38(v); }
            assert!(updated::<true>(&b[10..15], &c[10..15], 2, 38, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 15), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_3::new(&mut c[..]); m.set_raw_f38(r); }
            assert!(updated::<true>(&b[10..15], &c[10..15], 2, 38, r as u64) && others(&b, &c, 10, 15), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 37 && v as i64 <= (1u64 << 37) as i64 - 1 || 38 == 64 {
                let mut c = b;
                { let mut m = S2_3::new(&mut c[..]); m.set_f38(v); }
                assert!(S2_3::new(&c[..]).get_f38() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[15..21], 2, 39);
            assert!(s.get_raw_f39() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 25) as i64) >> 25;
            assert!(s.get_f39() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_3::new(&mut c[..]); m.set_f39(v); }
            assert!(updated::<true>(&b[15..21], &c[15..21], 2, 39, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 15, 21), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_3::new(&mut c[..]); m.set_raw_f39(r); }
            assert!(updated::<true>(&b[15..21], &c[15..21], 2, 39, r as u64) && others(&b, &c, 15, 21), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 38 && v as i64 <= (1u64 << 38) as i64 - 1 || 39 == 64 {
                let mut c = b;
                { let mut m = S2_3::new(&mut c[..]); m.set_f39(v); }
                assert!(S2_3::new(&c[..]).get_f39() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[20..26], 2, 41);
            assert!(s.get_raw_f41() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 23) as i64) >> 23;
            assert!(s.get_f41() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_3::new(&mut c[..]); m.set_f41(v); }
            assert!(updated::<true>(&b[20..26], &c[20..26], 2, 41, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 26), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_3::new(&mut c[..]); m.set_raw_f41(r); }
            assert!(updated::<true>(&b[20..26], &c[20..26], 2, 41, r as u64) && others(&b, &c, 20, 26), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 40 && v as i64 <= (1u64 << 40) as i64 - 1 || 41 == 64 {
                let mut c = b;
                { let mut m = S2_3::new(&mut c[..]); m.set_f41(v); }
                assert!(S2_3::new(&c[..]).get_f41() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[26..32], 2, 42);
            assert!(s.get_raw_f42() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 22) as i64) >> 22;
            assert!(s.get_f42() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_3::new(&mut c[..]); m.set_f42(v); }
            assert!(updated::<true>(&b[26..32], &c[26..32], 2, 42, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 26, 32), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_3::new(&mut c[..]); m.set_raw_f42(r); }
            assert!(updated::<true>(&b[26..32], &c[26..32], 2, 42, r as u64) && others(&b, &c, 26, 32), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 41 && v as i64 <= (1u64 << 41) as i64 - 1 || 42 == 64 {
                let mut c = b;
                { let mut m = S2_3::new(&mut c[..]); m.set_f42(v); }
                assert!(S2_3::new(&c[..]).get_f42() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[32..38], 2, 43);
            assert!(s.get_raw_f43() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 21) as i64) >> 21;
            assert!(s.get_f43() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_3::new(&mut c[..]); m.set_f43(v); }
            assert!(updated::<true>(&b[32..38], &c[32..38], 2, 43, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 32, 38), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_3::new(&mut c[..]); m.set_raw_f43(r); }
            assert!(updated::<true>(&b[32..38], &c[32..38], 2, 43, r as u64) && others(&b, &c, 32, 38), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 42 && v as i64 <= (1u64 << 42) as i64 - 1 || 43 == 64 {
                let mut c = b;
                { let mut m = S2_3::new(&mut c[..]); m.set_f43(v); }
                assert!(S2_3::new(&c[..]).get_f43() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[38..44], 2, 44);
            assert!(s.get_raw_f44() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 20) as i64) >> 20;
            assert!(s.get_f44() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_3::new(&mut c[..]); m.set_f44(v); }
            assert!(updated::<true>(&b[38..44], &c[38..44], 2, 44, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 38, 44), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_3::new(&mut c[..]); m.set_raw_f44(r); }
            assert!(updated::<true>(&b[38..44], &c[38..44], 2, 44, r as u64) && others(&b, &c, 38, 44), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 43 && v as i64 <= (1u64 << 43) as i64 - 1 || 44 == 64 {
                let mut c = b;
                { let mut m = S2_3::new(&mut c[..]); m.set_f44(v); }
                assert!(S2_3::new(&c[..]).get_f44() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o2_g4() {
        use crate::ibet::*;
        const N: usize = 52;
        assert!(<S2_4<()> as FixedSize>::SIZE == N && SIZE_S2_4 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S2_4::new(&b[..]);
        {
            let raw = field::<true>(&b[0..6], 2, 45);
            assert!(s.get_raw_f45() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 19) as i64) >> 19;
            assert!(s.get_f45() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_4::new(&mut c[..]); m.set_f45(v); }
            assert!(updated::<true>(&b[0..6], &c[0..6], 2, 45, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_4::new(&mut c[..]); m.set_raw_f45(r); }
            assert!(updated::<true>(&b[0..6], &c[0..6], 2, 45, r as u64) && others(&b, &c, 0, 6), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 44 && v as i64 <= (1u64 << 44) as i64 - 1 || 45 == 64 {
                let mut c = b;
                { let mut m = S2_4::new(&mut c[..]); m.set_f45(v); }
                assert!(S2_4::new(&c[..]).get_f45() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[6..12], 2, 46);
            assert!(s.get_raw_f46() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 18) as i64) >> 18;
            assert!(s.get_f46() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_4::new(&mut c[..]); m.set_f46(v); }
            assert!(updated::<true>(&b[6..12], &c[6..12], 2, 46, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 12), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_4::new(&mut c[..]); m.set_raw_f46(r); }
            assert!(updated::<true>(&b[6..12], &c[6..12], 2, 46, r as u64) && others(&b, &c, 6, 12), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 45 && v as i64 <= (1u64 << 45) as i64 - 1 || 46 == 64 {
                let mut c = b;
                { let mut m = S2_4::new(&mut c[..]); m.set_f46(v); }
                assert!(S2_4::new(&c[..]).get_f46() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[12..19], 2, 47);
            assert!(s.get_raw_f47() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 17) as i64) >> 17;
            assert!(s.get_f47() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_4::new(&mut c[..]); m.set_f47(v); }
            assert!(updated::<true>(&b[12..19], &c[12..19], 2, 47, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_4::new(&mut c[..]); m.set_raw_f47(r); }
            assert!(updated::<true>(&b[12..19], &c[12..19], 2, 47, r as u64) && others(&b, &c, 12, 19), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 46 && v as i64 <= (1u64 << 46) as i64 - 1 || 47 == 64 {
                let mut c = b;
                { let mut m = S2_4::new(&mut c[..]); m.set_f47(v); }
                assert!(S2_4::new(&c[..]).get_f47() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[18..25], 2, 48);
            assert!(s.get_raw_f48() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 16) as i64) >> 16;
            assert!(s.get_f48() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_4::new(&mut c[..]); m.set_f48(v); }
            assert!(updated::<true>(&b[18..25], &c[18..25], 2, 48, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 18, 25), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_4::new(&mut c[..]); m.set_raw_f48(r); }
            assert!(updated::<true>(&b[18..25], &c[18..25], 2, 48, r as u64) && others(&b, &c, 18, 25), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 47 && v as i64 <= (1u64 << 47) as i64 - 1 || 48 == 64 {
                let mut c = b;
                { let mut m = S2_4::new(&mut c[..]); m.set_f48(v); }
                assert!(S2_4::new(&c[..]).get_f48() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[24..31], 2, 49);
            assert!(s.get_raw_f49() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 15) as i64) >> 15;
            assert!(s.get_f49() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_4::new(&mut c[..]); m.set_f49(v); }
            assert!(updated::<true>(&b[24..31], &c[24..31], 2, 49, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 24, 31), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_4::new(&mut c[..]); m.set_raw_f49(r); }
            assert!(updated::<true>(&b[24..31], &c[24..31], 2, 49, r as u64) && others(&b, &c, 24, 31), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 48 && v as i64 <= (1u64 << 48) as i64 - 1 || 49 == 64 {
                let mut c = b;
                { let mut m = S2_4::new(&mut c[..]); m.set_f49(v); }
                assert!(S2_4::new(&c[..]).get_f49() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[31..38], 2, 50);
            assert!(s.get_raw_f50() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 14) as i64) >> 14;
            assert!(s.get_f50() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_4::new(&mut c[..]); m.set_f50(v); }
            assert!(updated::<true>(&b[31..38], &c[31..38], 2, 50, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 31, 38), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_4::new(&mut c[..]); m.set_raw_f50(r); }
            assert!(updated::<true>(&b[31..38], &c[31..38], 2, 50, r as u64) && others(&b, &c, 31, 38), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 49 && v as i64 <= (1u64 << 49) as i64 - 1 || 50 == 64 {
                let mut c = b;
                { let mut m = S2_4::new(&mut c[..]); m.set_f50(v); }
                assert!(S2_4::new(&c[..]).get_f50() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[38..45], 2, 51);
            assert!(s.get_raw_f51() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 13) as i64) >> 13;
            assert!(s.get_f51() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_4::new(&mut c[..]); m.set_f51(v); }
            assert!(updated::<true>(&b[38..45], &c[38..45], 2, 51, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 38, 45), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_4::new(&mut c[..]); m.set_raw_f51(r); }
            assert!(updated::<true>(&b[38..45], &c[38..45], 2, 51, r as u64) && others(&b, &c, 38, 45), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 50 && v as i64 <= (1u64 << 50) as i64 - 1 || 51 == 64 {
                let mut c = b;
                { let mut m = S2_4::new(&mut c[..]); m.set_f51(v); }
                assert!(S2_4::new(&c[..]).get_f51() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[45..52], 2, 52);
            assert!(s.get_raw_f52() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 12) as i64) >> 12;
            assert!(s.get_f52() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_4::new(&mut c[..]); m.set_f52(v); }
            assert!(updated::<true>(&b[45..52], &c[45..52], 2, 52, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 45, 52), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_4::new(&mut c[..]); m.set_raw_f52(r); }
            assert!(updated::<true>(&b[45..52], &c[45..52], 2, 52, r as u64) && others(&b, &c, 45, 52), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 51 && v as i64 <= (1u64 << 51) as i64 - 1 || 52 == 64 {
                let mut c = b;
                { let mut m = S2_4::new(&mut c[..]); m.set_f52(v); }
                assert!(S2_4::new(&c[..]).get_f52() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o2_g5() {
        use crate::ibet::*;
        const N: usize = 61;
        assert!(<S2_5<()> as FixedSize>::SIZE == N && SIZE_S2_5 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S2_5::new(&b[..]);
        {
            let raw = field::<true>(&b[0..7], 2, 53);
            assert!(s.get_raw_f53() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 11) as i64) >> 11;
            assert!(s.get_f53() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_5::new(&mut c[..]); m.set_f53(v); }
            assert!(updated::<true>(&b[0..7], &c[0..7], 2, 53, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_5::new(&mut c[..]); m.set_raw_f53(r); }
            assert!(updated::<true>(&b[0..7], &c[0..7], 2, 53, r as u64) && others(&b, &c, 0, 7), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 52 && v as i64 <= (1u64 << 52) as i64 - 1 || 53 == 64 {
                let mut c = b;
                { let mut m = S2_5::new(&mut c[..]); m.set_f53(v); }
                assert!(S2_5::new(&c[..]).get_f53() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[7..14], 2, 54);
            assert!(s.get_raw_f54() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 10) as i64) >> 10;
            assert!(s.get_f54() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_5::new(&mut c[..]); m.set_f54(v); }
            assert!(updated::<true>(&b[7..14], &c[7..14], 2, 54, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 14), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_5::new(&mut c[..]); m.set_raw_f54(r); }
            assert!(updated::<true>(&b[7..14], &c[7..14], 2, 54, r as u64) && others(&b, &c, 7, 14), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 53 && v as i64 <= (1u64 << 53) as i64 - 1 || 54 == 64 {
                let mut c = b;
                { let mut m = S2_5::new(&mut c[..]); m.set_f54(v); }
                assert!(S2_5::new(&c[..]).get_f54() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[14..22], 2, 55);
            assert!(s.get_raw_f55() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 9) as i64) >> 9;
            assert!(s.get_f55() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_5::new(&mut c[..]); m.set_f55(v); }
            assert!(updated::<true>(&b[14..22], &c[14..22], 2, 55, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 14, 22), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_5::new(&mut c[..]); m.set_raw_f55(r); }
            assert!(updated::<true>(&b[14..22], &c[14..22], 2, 55, r as u64) && others(&b, &c, 14, 22), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 54 && v as i64 <= (1u64 << 54) as i64 - 1 || 55 == 64 {
                let mut c = b;
                { let mut m = S2_5::new(&mut c[..]); m.set_f55(v); }
                assert!(S2_5::new(&c[..]).get_f55() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[21..29], 2, 58);
            assert!(s.get_raw_f58() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 6) as i64) >> 6;
            assert!(s.get_f58() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_5::new(&mut c[..]); m.set_f58(v); }
            assert!(updated::<true>(&b[21..29], &c[21..29], 2, 58, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 21, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_5::new(&mut c[..]); m.set_raw_f58(r); }
            assert!(updated::<true>(&b[21..29], &c[21..29], 2, 58, r as u64) && others(&b, &c, 21, 29), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 57 && v as i64 <= (1u64 << 57) as i64 - 1 || 58 == 64 {
                let mut c = b;
                { let mut m = S2_5::new(&mut c[..]); m.set_f58(v); }
                assert!(S2_5::new(&c[..]).get_f58() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[29..37], 2, 59);
            assert!(s.get_raw_f59() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 5) as i64) >> 5;
            assert!(s.get_f59() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_5::new(&mut c[..]); m.set_f59(v); }
            assert!(updated::<true>(&b[29..37], &c[29..37], 2, 59, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 29, 37), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_5::new(&mut c[..]); m.set_raw_f59(r); }
            assert!(updated::<true>(&b[29..37], &c[29..37], 2, 59, r as u64) && others(&b, &c, 29, 37), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 58 && v as i64 <= (1u64 << 58) as i64 - 1 || 59 == 64 {
                let mut c = b;
                { let mut m = S2_5::new(&mut c[..]); m.set_f59(v); }
                assert!(S2_5::new(&c[..]).get_f59() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[37..45], 2, 60);
            assert!(s.get_raw_f60() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 4) as i64) >> 4;
            assert!(s.get_f60() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_5::new(&mut c[..]); m.set_f60(v); }
            assert!(updated::<true>(&b[37..45], &c[37..45], 2, 60, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 37, 45), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_5::new(&mut c[..]); m.set_raw_f60(r); }
            assert!(updated::<true>(&b[37..45], &c[37..45], 2, 60, r as u64) && others(&b, &c, 37, 45), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 59 && v as i64 <= (1u64 << 59) as i64 - 1 || 60 == 64 {
                let mut c = b;
                { let mut m = S2_5::new(&mut c[..]); m.set_f60(v); }
                assert!(S2_5::new(&c[..]).get_f60() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[45..53], 2, 61);
            assert!(s.get_raw_f61() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 3) as i64) >> 3;
            assert!(s.get_f61() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_5::new(&mut c[..]); m.set_f61(v); }
            assert!(updated::<true>(&b[45..53], &c[45..53], 2, 61, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 45, 53), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_5::new(&mut c[..]); m.set_raw_f61(r); }
            assert!(updated::<true>(&b[45..53], &c[45..53], 2, 61, r as u64) && others(&b, &c, 45, 53), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 60 && v as i64 <= (1u64 << 60) as i64 - 1 || 61 == 64 {
                let mut c = b;
                { let mut m = S2_5::new(&mut c[..]); m.set_f61(v); }
                assert!(S2_5::new(&c[..]).get_f61() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[53..61], 2, 62);
            assert!(s.get_raw_f62() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 2) as i64) >> 2;
            assert!(s.get_f62() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S2_5::new(&mut c[..]); m.set_f62(v); }
            assert!(updated::<true>(&b[53..61], &c[53..61], 2, 62, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 53, 61), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S2_5::new(&mut c[..]); m.set_raw_f62(r); }
            assert!(updated::<true>(&b[53..61], &c[53..61], 2, 62, r as u64) && others(&b, &c, 53, 61), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 61 && v as i64 <= (1u64 << 61) as i64 - 1 || 62 == 64 {
                let mut c = b;
                { let mut m = S2_5::new(&mut c[..]); m.set_f62(v); }
                assert!(S2_5::new(&c[..]).get_f62() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o3_g0() {
        use crate::ibet::*;
        const N: usize = 12;
        assert!(<S3_0<()> as FixedSize>::SIZE == N && SIZE_S3_0 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S3_0::new(&b[..]);
        {
            let raw = field::<true>(&b[0..1], 3, 2);
            assert!(s.get_raw_f2() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 62) as i64) >> 62;
            assert!(s.get_f2() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_0::new(&mut c[..]); m.set_f2(v); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 3, 2, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_0::new(&mut c[..]); m.set_raw_f2(r); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 3, 2, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 1 && v as i64 <= (1u64 << 1) as i64 - 1 || 2 == 64 {
                let mut c = b;
                { let mut m = S3_0::new(&mut c[..]); m.set_f2(v); }
                assert!(S3_0::new(&c[..]).get_f2() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[1..2], 3, 4);
            assert!(s.get_raw_f4() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 60) as i64) >> 60;
            assert!(s.get_f4() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_0::new(&mut c[..]); m.set_f4(v); }
            assert!(updated::<true>(&b[1..2], &c[1..2], 3, 4, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_0::new(&mut c[..]); m.set_raw_f4(r); }
            assert!(updated::<true>(&b[1..2], &c[1..2], 3, 4, r as u64) && others(&b, &c, 1, 2), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 3 && v as i64 <= (1u64 << 3) as i64 - 1 || 4 == 64 {
                let mut c = b;
                { let mut m = S3_0::new(&mut c[..]); m.set_f4(v); }
                assert!(S3_0::new(&c[..]).get_f4() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[2..3], 3, 5);
            assert!(s.get_raw_f5() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 59) as i64) >> 59;
            assert!(s.get_f5() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_0::new(&mut c[..]); m.set_f5(v); }
            assert!(updated::<true>(&b[2..3], &c[2..3], 3, 5, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_0::new(&mut c[..]); m.set_raw_f5(r); }
            assert!(updated::<true>(&b[2..3], &c[2..3], 3, 5, r as u64) && others(&b, &c, 2, 3), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 4 && v as i64 <= (1u64 << 4) as i64 - 1 || 5 == 64 {
                let mut c = b;
                { let mut m = S3_0::new(&mut c[..]); m.set_f5(v); }
                assert!(S3_0::new(&c[..]).get_f5() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[3..5], 3, 6);
            assert!(s.get_raw_f6() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 58) as i64) >> 58;
            assert!(s.get_f6() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_0::new(&mut c[..]); m.set_f6(v); }
            assert!(updated::<true>(&b[3..5], &c[3..5], 3, 6, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_0::new(&mut c[..]); m.set_raw_f6(r); }
            assert!(updated::<true>(&b[3..5], &c[3..5], 3, 6, r as u64) && others(&b, &c, 3, 5), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 5 && v as i64 <= (1u64 << 5) as i64 - 1 || 6 == 64 {
                let mut c = b;
                { let mut m = S3_0::new(&mut c[..]); m.set_f6(v); }
                assert!(S3_0::new(&c[..]).get_f6() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[4..6], 3, 10);
            assert!(s.get_raw_f10() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 54) as i64) >> 54;
            assert!(s.get_f10() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_0::new(&mut c[..]); m.set_f10(v); }
            assert!(updated::<true>(&b[4..6], &c[4..6], 3, 10, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_0::new(&mut c[..]); m.set_raw_f10(r); }
            assert!(updated::<true>(&b[4..6], &c[4..6], 3, 10, r as u64) && others(&b, &c, 4, 6), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 9 && v as i64 <= (1u64 << 9) as i64 - 1 || 10 == 64 {
                let mut c = b;
                { let mut m = S3_0::new(&mut c[..]); m.set_f10(v); }
                assert!(S3_0::new(&c[..]).get_f10() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[6..8], 3, 11);
            assert!(s.get_raw_f11() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 53) as i64) >> 53;
            assert!(s.get_f11() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_0::new(&mut c[..]); m.set_f11(v); }
            assert!(updated::<true>(&b[6..8], &c[6..8], 3, 11, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_0::new(&mut c[..]); m.set_raw_f11(r); }
            assert!(updated::<true>(&b[6..8], &c[6..8], 3, 11, r as u64) && others(&b, &c, 6, 8), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 10 && v as i64 <= (1u64 << 10) as i64 - 1 || 11 == 64 {
                let mut c = b;
                { let mut m = S3_0::new(&mut c[..]); m.set_f11(v); }
                assert!(S3_0::new(&c[..]).get_f11() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[8..10], 3, 12);
            assert!(s.get_raw_f12() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 52) as i64) >> 52;
            assert!(s.get_f12() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_0::new(&mut c[..]); m.set_f12(v); }
            assert!(updated::<true>(&b[8..10], &c[8..10], 3, 12, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 8, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_0::new(&mut c[..]); m.set_raw_f12(r); }
            assert!(updated::<true>(&b[8..10], &c[8..10], 3, 12, r as u64) && others(&b, &c, 8, 10), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 11 && v as i64 <= (1u64 << 11) as i64 - 1 || 12 == 64 {
                let mut c = b;
                { let mut m = S3_0::new(&mut c[..]); m.set_f12(v); }
                assert!(S3_0::new(&c[..]).get_f12() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[10..12], 3, 13);
            assert!(s.get_raw_f13() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 51) as i64) >> 51;
            assert!(s.get_f13() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_0::new(&mut c[..]); m.set_f13(v); }
            assert!(updated::<true>(&b[10..12], &c[10..12], 3, 13, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 12), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_0::new(&mut c[..]); m.set_raw_f13(r); }
            assert!(updated::<true>(&b[10..12], &c[10..12], 3, 13, r as u64) && others(&b, &c, 10, 12), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 12 && v as i64 <= (1u64 << 12) as i64 - 1 || 13 == 64 {
                let mut c = b;
                { let mut m = S3_0::new(&mut c[..]); m.set_f13(v); }
                assert!(S3_0::new(&c[..]).get_f13() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o3_g1() {
        use crate::ibet::*;
        const N: usize = 23;
        assert!(<S3_1<()> as FixedSize>::SIZE == N && SIZE_S3_1 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S3_1::new(&b[..]);
        {
            let raw = field::<true>(&b[0..3], 3, 14);
            assert!(s.get_raw_f14() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 50) as i64) >> 50;
            assert!(s.get_f14() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_1::new(&mut c[..]); m.set_f14(v); }
            assert!(updated::<true>(&b[0..3], &c[0..3], 3, 14, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_1::new(&mut c[..]); m.set_raw_f14(r); }
            assert!(updated::<true>(&b[0..3], &c[0..3], 3, 14, r as u64) && others(&b, &c, 0, 3), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 13 && v as i64 <= (1u64 << 13) as i64 - 1 || 14 == 64 {
                let mut c = b;
                { let mut m = S3_1::new(&mut c[..]); m.set_f14(v); }
                assert!(S3_1::new(&c[..]).get_f14() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[2..5], 3, 15);
            assert!(s.get_raw_f15() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 49) as i64) >> 49;
            assert!(s.get_f15() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_1::new(&mut c[..]); m.set_f15(v); }
            assert!(updated::<true>(&b[2..5], &c[2..5], 3, 15, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_1::new(&mut c[..]); m.set_raw_f15(r); }
            assert!(updated::<true>(&b[2..5], &c[2..5], 3, 15, r as u64) && others(&b, &c, 2, 5), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 14 && v as i64 <= (1u64 << 14) as i64 - 1 || 15 == 64 {
                let mut c = b;
                { let mut m = S3_1::new(&mut c[..]); m.set_f15(v); }
                assert!(S3_1::new(&c[..]).get_f15() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[4..7], 3, 18);
            assert!(s.get_raw_f18() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 46) as i64) >> 46;
            assert!(s.get_f18() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_1::new(&mut c[..]); m.set_f18(v); }
            assert!(updated::<true>(&b[4..7], &c[4..7], 3, 18, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_1::new(&mut c[..]); m.set_raw_f18(r); }
            assert!(updated::<true>(&b[4..7], &c[4..7], 3, 18, r as u64) && others(&b, &c, 4, 7), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 17 && v as i64 <= (1u64 << 17) as i64 - 1 || 18 == 64 {
                let mut c = b;
                { let mut m = S3_1::new(&mut c[..]); m.set_f18(v); }
                assert!(S3_1::new(&c[..]).get_f18() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[7..10], 3, 19);
            assert!(s.get_raw_f19() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 45) as i64) >> 45;
            assert!(s.get_f19() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_1::new(&mut c[..]); m.set_f19(v); }
            assert!(updated::<true>(&b[7..10], &c[7..10], 3, 19, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_1::new(&mut c[..]); m.set_raw_f19(r); }
            assert!(updated::<true>(&b[7..10], &c[7..10], 3, 19, r as u64) && others(&b, &c, 7, 10), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 18 && v as i64 <= (1u64 << 18) as i64 - 1 || 19 == 64 {
                let mut c = b;
                { let mut m = S3_1::new(&mut c[..]); m.set_f19(v); }
                assert!(S3_1::new(&c[..]).get_f19() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[10..13], 3, 20);
            assert!(s.get_raw_f20() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 44) as i64) >> 44;
            assert!(s.get_f20() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_1::new(&mut c[..]); m.set_f20(v); }
            assert!(updated::<true>(&b[10..13], &c[10..13], 3, 20, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_1::new(&mut c[..]); m.set_raw_f20(r); }
            assert!(updated::<true>(&b[10..13], &c[10..13], 3, 20, r as u64) && others(&b, &c, 10, 13), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 19 && v as i64 <= (1u64 << 19) as i64 - 1 || 20 == 64 {
                let mut c = b;
                { let mut m = S3_1::new(&mut c[..]); m.set_f20(v); }
                assert!(S3_1::new(&c[..]).get_f20() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[13..16], 3, 21);
            assert!(s.get_raw_f21() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 43) as i64) >> 43;
            assert!(s.get_f21() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_1::new(&mut c[..]); m.set_f21(v); }
            assert!(updated::<true>(&b[13..16], &c[13..16], 3, 21, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 13, 16), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_1::new(&mut c[..]); m.set_raw_f21(r); }
            assert!(updated::<true>(&b[13..16], &c[13..16], 3, 21, r as u64) && others(&b, &c, 13, 16), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 20 && v as i64 <= (1u64 << 20) as i64 - 1 || 21 == 64 {
                let mut c = b;
                { let mut m = S3_1::new(&mut c[..]); m.set_f21(v); }
                assert!(S3_1::new(&c[..]).get_f21() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[16..20], 3, 22);
            assert!(s.get_raw_f22() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 42) as i64) >> 42;
            assert!(s.get_f22() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_1::new(&mut c[..]); m.set_f22(v); }
            assert!(updated::<true>(&b[16..20], &c[16..20], 3, 22, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_1::new(&mut c[..]); m.set_raw_f22(r); }
            assert!(updated::<true>(&b[16..20], &c[16..20], 3, 22, r as u64) && others(&b, &c, 16, 20), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 21 && v as i64 <= (1u64 << 21) as i64 - 1 || 22 == 64 {
                let mut c = b;
                { let mut m = S3_1::new(&mut c[..]); m.set_f22(v); }
                assert!(S3_1::new(&c[..]).get_f22() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[19..23], 3, 23);
            assert!(s.get_raw_f23() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 41) as i64) >> 41;
            assert!(s.get_f23() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_1::new(&mut c[..]); m.set_f23(v); }
            assert!(updated::<true>(&b[19..23], &c[19..23], 3, 23, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 19, 23), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_1::new(&mut c[..]); m.set_raw_f23(r); }
            assert!(updated::<true>(&b[19..23], &c[19..23], 3, 23, r as u64) && others(&b, &c, 19, 23), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 22 && v as i64 <= (1u64 << 22) as i64 - 1 || 23 == 64 {
                let mut c = b;
                { let mut m = S3_1::new(&mut c[..]); m.set_f23(v); }
                assert!(S3_1::new(&c[..]).get_f23() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o3_g2() {
        use crate::ibet::*;
        const N: usize = 34;
        assert!(<S3_2<()> as FixedSize>::SIZE == N && SIZE_S3_2 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S3_2::new(&b[..]);
        {
            let raw = field::<true>(&b[0..4], 3, 26);
            assert!(s.get_raw_f26() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 38) as i64) >> 38;
            assert!(s.get_f26() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_2::new(&mut c[..]); m.set_f26(v); }
            assert!(updated::<true>(&b[0..4], &c[0..4], 3, 26, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_2::new(&mut c[..]); m.set_raw_f26(r); }
            assert!(updated::<true>(&b[0..4], &c[0..4], 3, 26, r as u64) && others(&b, &c, 0, 4), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 25 && v as i64 <= (1u64 << 25) as i64 - 1 || 26 == 64 {
                let mut c = b;
                { let mut m = S3_2::new(&mut c[..]); m.set_f26(v); }
                assert!(S3_2::new(&c[..]).get_f26() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[4..8], 3, 27);
            assert!(s.get_raw_f27() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 37) as i64) >> 37;
            assert!(s.get_f27() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_2::new(&mut c[..]); m.set_f27(v); }
            assert!(updated::<true>(&b[4..8], &c[4..8], 3, 27, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_2::new(&mut c[..]); m.set_raw_f27(r); }
            assert!(updated::<true>(&b[4..8], &c[4..8], 3, 27, r as u64) && others(&b, &c, 4, 8), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 26 && v as i64 <= (1u64 << 26) as i64 - 1 || 27 == 64 {
                let mut c = b;
                { let mut m = S3_2::new(&mut c[..]); m.set_f27(v); }
                assert!(S3_2::new(&c[..]).get_f27() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[8..12], 3, 28);
            assert!(s.get_raw_f28() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 36) as i64) >> 36;
            assert!(s.get_f28() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_2::new(&mut c[..]); m.set_f28(v); }
            assert!(updated::<true>(&b[8..12], &c[8..12], 3, 28, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 8, 12), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_2::new(&mut c[..]); m.set_raw_f28(r); }
            assert!(updated::<true>(&b[8..12], &c[8..12], 3, 28, r as u64) && others(&b, &c, 8, 12), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 27 && v as i64 <= (1u64 << 27) as i64 - 1 || 28 == 64 {
                let mut c = b;
                { let mut m = S3_2::new(&mut c[..]); m.set_f28(v); }
                assert!(S3_2::new(&c[..]).get_f28() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[12..16], 3, 29);
            assert!(s.get_raw_f29() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 35) as i64) >> 35;
            assert!(s.get_f29() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_2::new(&mut c[..]); m.set_f29(v); }
            assert!(updated::<true>(&b[12..16], &c[12..16], 3, 29, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 16), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_2::new(&mut c[..]); m.set_raw_f29(r); }
            assert!(updated::<true>(&b[12..16], &c[12..16], 3, 29, r as u64) && others(&b, &c, 12, 16), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 28 && v as i64 <= (1u64 << 28) as i64 - 1 || 29 == 64 {
                let mut c = b;
                { let mut m = S3_2::new(&mut c[..]); m.set_f29(v); }
                assert!(S3_2::new(&c[..]).get_f29() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[16..21], 3, 30);
            assert!(s.get_raw_f30() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 34) as i64) >> 34;
            assert!(s.get_f30() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_2::new(&mut c[..]); m.set_f30(v); }
            assert!(updated::<true>(&b[16..21], &c[16..21], 3, 30, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 21), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_2::new(&mut c[..]); m.set_raw_f30(r); }
            assert!(updated::<true>(&b[16..21], &c[16..21], 3, 30, r as u64) && others(&b, &c, 16, 21), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 29 && v as i64 <= (1u64 << 29) as i64 - 1 || 30 == 64 {
                let mut c = b;
                { let mut m = S3_2::new(&mut c[..]); m.set_f30(v); }
                assert!(S3_2::new(&c[..]).get_f30() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[20..25], 3, 31);
            assert!(s.get_raw_f31() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 33) as i64) >> 33;
            assert!(s.get_f31() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_2::new(&mut c[..]); m.set_f31(v); }
            assert!(updated::<true>(&b[20..25], &c[20..25], 3, 31, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 25), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_2::new(&mut c[..]); m.set_raw_f31(r); }
            assert!(updated::<true>(&b[20..25], &c[20..25], 3, 31, r as u64) && others(&b, &c, 20, 25), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 30 && v as i64 <= (1u64 << 30) as i64 - 1 || 31 == 64 {
                let mut c = b;
                { let mut m = S3_2::new(&mut c[..]); m.set_f31(v); }
                assert!(S3_2::new(&c[..]).get_f31() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[24..29], 3, 34);
            assert!(s.get_raw_f34() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 30) as i64) >> 30;
            assert!(s.get_f34() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_2::new(&mut c[..]); m.set_f34(v); }
            assert!(updated::<true>(&b[24..29], &c[24..29], 3, 34, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 24, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_2::new(&mut c[..]); m.set_raw_f34(r); }
            assert!(updated::<true>(&b[24..29], &c[24..29], 3, 34, r as u64) && others(&b, &c, 24, 29), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 33 && v as i64 <= (1u64 << 33) as i64 - 1 || 34 == 64 {
                let mut c = b;
                { let mut m = S3_2::new(&mut c[..]); m.set_f34(v); }
                assert!(S3_2::new(&c[..]).get_f34() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[29..34], 3, 35);
            assert!(s.get_raw_f35() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 29) as i64) >> 29;
            assert!(s.get_f35() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_2::new(&mut c[..]); m.set_f35(v); }
            assert!(updated::<true>(&b[29..34], &c[29..34], 3, 35, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 29, 34), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_2::new(&mut c[..]); m.set_raw_f35(r); }
            assert!(updated::<true>(&b[29..34], &c[29..34], 3, 35, r as u64) && others(&b, &c, 29, 34), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 34 && v as i64 <= (1u64 << 34) as i64 - 1 || 35 == 64 {
                let mut c = b;
                { let mut m = S3_2::new(&mut c[..]); m.set_f35(v); }
                assert!(S3_2::new(&c[..]).get_f35() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o3_g3() {
        use crate::ibet::*;
        const N: usize = 44;
        assert!(<S3_3<()> as FixedSize>::SIZE == N && SIZE_S3_3 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S3_3::new(&b[..]);
        {
            let raw = field::<true>(&b[0..5], 3, 36);
            assert!(s.get_raw_f36() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 28) as i64) >> 28;
            assert!(s.get_f36() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_3::new(&mut c[..]); m.set_f36(v); }
            assert!(updated::<true>(&b[0..5], &c[0..5], 3, 36, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_3::new(&mut c[..]); m.set_raw_f36(r); }
            assert!(updated::<true>(&b[0..5], &c[0..5], 3, 36, r as u64) && others(&b, &c, 0, 5), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 35 && v as i64 <= (1u64 << 35) as i64 - 1 || 36 == 64 {
                let mut c = b;
                { let mut m = S3_3::new(&mut c[..]); m.set_f36(v); }
                assert!(S3_3::new(&c[..]).get_f36() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[5..10], 3, 37);
            assert!(s.get_raw_f37() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 27) as i64) >> 27;
            assert!(s.get_f37() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_3::new(&mut c[..]); m.set_f37(v); }
            assert!(updated::<true>(&b[5..10], &c[5..10], 3, 37, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_3::new(&mut c[..]); m.set_raw_f37(r); }
            assert!(updated::<true>(&b[5..10], &c[5..10], 3, 37, r as u64) && others(&b, &c, 5, 10), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 36 && v as i64 <= (1u64 << 36) as i64 - 1 || 37 == 64 {
                let mut c = b;
                { let mut m = S3_3::new(&mut c[..]); m.set_f37(v); }
                assert!(S3_3::new(&c[..]).get_f37() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[10..16], 3, 38);
            assert!(s.get_raw_f38() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 26) as i64) >> 26;
            assert!(s.get_f38() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_3::new(&mut c[..]); m.set_f38(v); }
            assert!(updated::<true>(&b[10..16], &c[10..16], 3, 38, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 16), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_3::new(&mut c[..]); m.set_raw_f38(r); }
            assert!(updated::<true>(&b[10..16], &c[10..16], 3, 38, r as u64) && others(&b, &c, 10, 16), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 37 && v as i64 <= (1u64 << 37) as i64 - 1 || 38 == 64 {
                let mut c = b;
                { let mut m = S3_3::new(&mut c[..]); m.set_f38(v); }
                assert!(S3_3::new(&c[..]).get_f38() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[15..21], 3, 39);
            assert!(s.get_raw_f39() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 25) as i64) >> 25;
            assert!(s.get_f39() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_3::new(&mut c[..]); m.set_f39(v); }
            assert!(updated::<true>(&b[15..21], &c[15..21], 3, 39, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 15, 21), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_3::new(&mut c[..]); m.set_raw_f39(r); }
            assert!(updated::<true>(&b[15..21], &c[15..21], 3, 39, r as u64) && others(&b, &c, 15, 21), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 38 && v as i64 <= (1u64 << 38) as i64 - 1 || 39 == 64 {
                let mut c = b;
                { let mut m = S3_3::new(&mut c[..]); m.set_f39(v); }
                assert!(S3_3::new(&c[..]).get_f39() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[20..26], 3, 41);
            assert!(s.get_raw_f41() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 23) as i64) >> 23;
            assert!(s.get_f41() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_3::new(&mut c[..]); m.set_f41(v); }
            assert!(updated::<true>(&b[20..26], &c[20..26], 3, 41, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 26), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_3::new(&mut c[..]); m.set_raw_f41(r); }
            assert!(updated::<true>(&b[20..26], &c[20..26], 3, 41, r as u64) && others(&b, &c, 20, 26), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 40 && v as i64 <= (1u64 << 40) as i64 - 1 || 41 == 64 {
                let mut c = b;
                { let mut m = S3_3::new(&mut c[..]); m.set_f41(v); }
                assert!(S3_3::new(&c[..]).get_f41() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[26..32], 3, 42);
            assert!(s.get_raw_f42() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 22) as i64) >> 22;
            assert!(s.get_f42() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_3::new(&mut c[..]); m.set_f42(v); }
            assert!(updated::<true>(&b[26..32], &c[26..32], 3, 42, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 26, 32), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_3::new(&mut c[..]); m.set_raw_f42(r); }
            assert!(updated::<true>(&b[26..32], &c[26..32], 3, 42, r as u64) && others(&b, &c, 26, 32), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 41 && v as i64 <= (1u64 << 41) as i64 - 1 || 42 == 64 {
                let mut c = b;
                { let mut m = S3_3::new(&mut c[..]); m.set_f42(v); }
                assert!(S3_3::new(&c[..]).get_f42() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[32..38], 3, 43);
            assert!(s.get_raw_f43() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 21) as i64) >> 21;
            assert!(s.get_f43() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_3::new(&mut c[..]); m.set_f43(v); }
            assert!(updated::<true>(&b[32..38], &c[32..38], 3, 43, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 32, 38), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_3::new(&mut c[..]); m.set_raw_f43(r); }
            assert!(updated::<true>(&b[32..38], &c[32..38], 3, 43, r as u64) && others(&b, &c, 32, 38), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 42 && v as i64 <= (1u64 << 42) as i64 - 1 || 43 == 64 {
                let mut c = b;
                { let mut m = S3_3::new(&mut c[..]); m.set_f43(v); }
                assert!(S3_3::new(&c[..]).get_f43() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[38..44], 3, 44);
            assert!(s.get_raw_f44() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 20) as i64) >> 20;
            assert!(s.get_f44() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_3::new(&mut c[..]); m.set_f44(v); }
            assert!(updated::<true>(&b[38..44], &c[38..44], 3, 44, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 38, 44), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_3::new(&mut c[..]); m.set_raw_f44(r); }
            assert!(updated::<true>(&b[38..44], &c[38..44], 3, 44, r as u64) && others(&b, &c, 38, 44), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 43 && v as i64 <= (1u64 << 43) as i64 - 1 || 44 == 64 {
                let mut c = b;
                { let mut m = S3_3::new(&mut c[..]); m.set_f44(v); }
                assert!(S3_3::new(&c[..]).get_f44() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o3_g4() {
        use crate::ibet::*;
        const N: usize = 52;
        assert!(<S3_4<()> as FixedSize>::SIZE == N && SIZE_S3_4 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S3_4::new(&b[..]);
        {
            let raw = field::<true>(&b[0..6], 3, 45);
            assert!(s.get_raw_f45() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 19) as i64) >> 19;
            assert!(s.get_f45() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_4::new(&mut c[..]); m.set_f45(v); }
            assert!(updated::<true>(&b[0..6], &c[0..6], 3, 45, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_4::new(&mut c[..]); m.set_raw_f45(r); }
            assert!(updated::<true>(&b[0..6], &c[0..6], 3, 45, r as u64) && others(&b, &c, 0, 6), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 44 && v as i64 <= (1u64 << 44) as i64 - 1 || 45 == 64 {
                let mut c = b;
                { let mut m = S3_4::new(&mut c[..]); m.set_f45(v); }
                assert!(S3_4::new(&c[..]).get_f45() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[6..13], 3, 46);
            assert!(s.get_raw_f46() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 18) as i64) >> 18;
            assert!(s.get_f46() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_4::new(&mut c[..]); m.set_f46(v); }
            assert!(updated::<true>(&b[6..13], &c[6..13], 3, 46, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_4::new(&mut c[..]); m.set_raw_f46(r); }
            assert!(updated::<true>(&b[6..13], &c[6..13], 3, 46, r as u64) && others(&b, &c, 6, 13), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 45 && v as i64 <= (1u64 << 45) as i64 - 1 || 46 == 64 {
                let mut c = b;
                { let mut m = S3_4::new(&mut c[..]); m.set_f46(v); }
                assert!(S3_4::new(&c[..]).get_f46() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[12..19], 3, 47);
            assert!(s.get_raw_f47() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 17) as i64) >> 17;
            assert!(s.get_f47() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_4::new(&mut c[..]); m.set_f47(v); }
            assert!(updated::<true>(&b[12..19], &c[12..19], 3, 47, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_4::new(&mut c[..]); m.set_raw_f47(r); }
            assert!(updated::<true>(&b[12..19], &c[12..19], 3, 47, r as u64) && others(&b, &c, 12, 19), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 46 && v as i64 <= (1u64 << 46) as i64 - 1 || 47 == 64 {
                let mut c = b;
                { let mut m = S3_4::new(&mut c[..]); m.set_f47(v); }
                assert!(S3_4::new(&c[..]).get_f47() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[18..25], 3, 48);
            assert!(s.get_raw_f48() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 16) as i64) >> 16;
            assert!(s.get_f48() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_4::new(&mut c[..]); m.set_f48(v); }
            assert!(updated::<true>(&b[18..25], &c[18..25], 3, 48, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 18, 25), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_4::new(&mut c[..]); m.set_raw_f48(r); }
            assert!(updated::<true>(&b[18..25], &c[18..25], 3, 48, r as u64) && others(&b, &c, 18, 25), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 47 && v as i64 <= (1u64 << 47) as i64 - 1 || 48 == 64 {
                let mut c = b;
                { let mut m = S3_4::new(&mut c[..]); m.set_f48(v); }
                assert!(S3_4::new(&c[..]).get_f48() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[24..31], 3, 49);
            assert!(s.get_raw_f49() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 15) as i64) >> 15;
            assert!(s.get_f49() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_4::new(&mut c[..]); m.set_f49(v); }
            assert!(updated::<true>(&b[24..31], &c[24..31], 3, 49, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 24, 31), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_4::new(&mut c[..]); m.set_raw_f49(r); }
            assert!(updated::<true>(&b[24..31], &c[24..31], 3, 49, r as u64) && others(&b, &c, 24, 31), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 48 && v as i64 <= (1u64 << 48) as i64 - 1 || 49 == 64 {
                let mut c = b;
                { let mut m = S3_4::new(&mut c[..]); m.set_f49(v); }
                assert!(S3_4::new(&c[..]).get_f49() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[31..38], 3, 50);
            assert!(s.get_raw_f50() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 14) as i64) >> 14;
            assert!(s.get_f50() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_4::new(&mut c[..]); m.set_f50(v); }
            assert!(updated::<true>(&b[31..38], &c[31..38], 3, 50, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 31, 38), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_4::new(&mut c[..]); m.set_raw_f50(r); }
            assert!(updated::<true>(&b[31..38], &c[31..38], 3, 50, r as u64) && others(&b, &c, 31, 38), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 49 && v as i64 <= (1u64 << 49) as i64 - 1 || 50 == 64 {
                let mut c = b;
                { let mut m = S3_4::new(&mut c[..]); m.set_f50(v); }
                assert!(S3_4::new(&c[..]).get_f50() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[38..45], 3, 51);
            assert!(s.get_raw_f51() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 13) as i64) >> 13;
            assert!(s.get_f51() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_4::new(&mut c[..]); m.set_f51(v); }
            assert!(updated::<true>(&b[38..45], &c[38..45], 3, 51, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 38, 45), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_4::new(&mut c[..]); m.set_raw_f51(r); }
            assert!(updated::<true>(&b[38..45], &c[38..45], 3, 51, r as u64) && others(&b, &c, 38, 45), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 50 && v as i64 <= (1u64 << 50) as i64 - 1 || 51 == 64 {
                let mut c = b;
                { let mut m = S3_4::new(&mut c[..]); m.set_f51(v); }
                assert!(S3_4::new(&c[..]).get_f51() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[45..52], 3, 52);
            assert!(s.get_raw_f52() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 12) as i64) >> 12;
            assert!(s.get_f52() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_4::new(&mut c[..]); m.set_f52(v); }
            assert!(updated::<true>(&b[45..52], &c[45..52], 3, 52, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 45, 52), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_4::new(&mut c[..]); m.set_raw_f52(r); }
            assert!(updated::<true>(&b[45..52], &c[45..52], 3, 52, r as u64) && others(&b, &c, 45, 52), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 51 && v as i64 <= (1u64 << 51) as i64 - 1 || 52 == 64 {
                let mut c = b;
                { let mut m = S3_4::new(&mut c[..]); m.set_f52(v); }
                assert!(S3_4::new(&c[..]).get_f52() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o3_g5() {
        use crate::ibet::*;
        const N: usize = 62;
        assert!(<S3_5<()> as FixedSize>::SIZE == N && SIZE_S3_5 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S3_5::new(&b[..]);
        {
            let raw = field::<true>(&b[0..7], 3, 53);
            assert!(s.get_raw_f53() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 11) as i64) >> 11;
            assert!(s.get_f53() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_5::new(&mut c[..]); m.set_f53(v); }
            assert!(updated::<true>(&b[0..7], &c[0..7], 3, 53, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_5::new(&mut c[..]); m.set_raw_f53(r); }
            assert!(updated::<true>(&b[0..7], &c[0..7], 3, 53, r as u64) && others(&b, &c, 0, 7), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 52 && v as i64 <= (1u64 << 52) as i64 - 1 || 53 == 64 {
                let mut c = b;
                { let mut m = S3_5::new(&mut c[..]); m.set_f53(v); }
                assert!(S3_5::new(&c[..]).get_f53() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[7..15], 3, 54);
            assert!(s.get_raw_f54() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 10) as i64) >> 10;
            assert!(s.get_f54() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_5::new(&mut c[..]); m.set_f54(v); }
            assert!(updated::<true>(&b[7..15], &c[7..15], 3, 54, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 15), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_5::new(&mut c[..]); m.set_raw_f54(r); }
            assert!(updated::<true>(&b[7..15], &c[7..15], 3, 54, r as u64) && others(&b, &c, 7, 15), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 53 && v as i64 <= (1u64 << 53) as i64 - 1 || 54 == 64 {
                let mut c = b;
                { let mut m = S3_5::new(&mut c[..]); m.set_f54(v); }
                assert!(S3_5::new(&c[..]).get_f54() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[14..22], 3, 55);
            assert!(s.get_raw_f55() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 9) as i64) >> 9;
            assert!(s.get_f55() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_5::new(&mut c[..]); m.set_f55(v); }
            assert!(updated::<true>(&b[14..22], &c[14..22], 3, 55, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 14, 22), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_5::new(&mut c[..]); m.set_raw_f55(r); }
            assert!(updated::<true>(&b[14..22], &c[14..22], 3, 55, r as u64) && others(&b, &c, 14, 22), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 54 && v as i64 <= (1u64 << 54) as i64 - 1 || 55 == 64 {
                let mut c = b;
                { let mut m = S3_5::new(&mut c[..]); m.set_f55(v); }
                assert!(S3_5::new(&c[..]).get_f55() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[21..29], 3, 58);
            assert!(s.get_raw_f58() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 6) as i64) >> 6;
            assert!(s.get_f58() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_5::new(&mut c[..]); m.set_f58(v); }
            assert!(updated::<true>(&b[21..29], &c[21..29], 3, 58, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 21, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_5::new(&mut c[..]); m.set_raw_f58(r); }
            assert!(updated::<true>(&b[21..29], &c[21..29], 3, 58, r as u64) && others(&b, &c, 21, 29), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 57 && v as i64 <= (1u64 << 57) as i64 - 1 || 58 == 64 {
                let mut c = b;
                { let mut m = S3_5::new(&mut c[..]); m.set_f58(v); }
                assert!(S3_5::new(&c[..]).get_f58() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[29..37], 3, 59);
            assert!(s.get_raw_f59() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 5) as i64) >> 5;
            assert!(s.get_f59() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_5::new(&mut c[..]); m.set_f59(v); }
            assert!(updated::<true>(&b[29..37], &c[29..37], 3, 59, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 29, 37), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_5::new(&mut c[..]); m.set_raw_f59(r); }
            assert!(updated::<true>(&b[29..37], &c[29..37], 3, 59, r as u64) && others(&b, &c, 29, 37), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 58 && v as i64 <= (1u64 << 58) as i64 - 1 || 59 == 64 {
                let mut c = b;
                { let mut m = S3_5::new(&mut c[..]); m.set_f59(v); }
                assert!(S3_5::new(&c[..]).get_f59() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[37..45], 3, 60);
            assert!(s.get_raw_f60() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 4) as i64) >> 4;
            assert!(s.get_f60() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_5::new(&mut c[..]); m.set_f60(v); }
            assert!(updated::<true>(&b[37..45], &c[37..45], 3, 60, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 37, 45), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_5::new(&mut c[..]); m.set_raw_f60(r); }
            assert!(updated::<true>(&b[37..45], &c[37..45], 3, 60, r as u64) && others(&b, &c, 37, 45), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 59 && v as i64 <= (1u64 << 59) as i64 - 1 || 60 == 64 {
                let mut c = b;
                { let mut m = S3_5::new(&mut c[..]); m.set_f60(v); }
                assert!(S3_5::new(&c[..]).get_f60() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[45..53], 3, 61);
            assert!(s.get_raw_f61() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 3) as i64) >> 3;
            assert!(s.get_f61() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_5::new(&mut c[..]); m.set_f61(v); }
            assert!(updated::<true>(&b[45..53], &c[45..53], 3, 61, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 45, 53), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_5::new(&mut c[..]); m.set_raw_f61(r); }
            assert!(updated::<true>(&b[45..53], &c[45..53], 3, 61, r as u64) && others(&b, &c, 45, 53), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 60 && v as i64 <= (1u64 << 60) as i64 - 1 || 61 == 64 {
                let mut c = b;
                { let mut m = S3_5::new(&mut c[..]); m.set_f61(v); }
                assert!(S3_5::new(&c[..]).get_f61() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[53..62], 3, 62);
            assert!(s.get_raw_f62() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 2) as i64) >> 2;
            assert!(s.get_f62() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S3_5::new(&mut c[..]); m.set_f62(v); }
            assert!(updated::<true>(&b[53..62], &c[53..62], 3, 62, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 53, 62), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S3_5::new(&mut c[..]); m.set_raw_f62(r); }
            assert!(updated::<true>(&b[53..62], &c[53..62], 3, 62, r as u64) && others(&b, &c, 53, 62), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 61 && v as i64 <= (1u64 << 61) as i64 - 1 || 62 == 64 {
                let mut c = b;
                { let mut m = S3_5::new(&mut c[..]); m.set_f62(v); }
                assert!(S3_5::new(&c[..]).get_f62() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o4_g0() {
        use crate::ibet::*;
        const N: usize = 13;
        assert!(<S4_0<()> as FixedSize>::SIZE == N && SIZE_S4_0 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S4_0::new(&b[..]);
        {
            let raw = field::<true>(&b[0..1], 4, 2);
            assert!(s.get_raw_f2() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 62) as i64) >> 62;
            assert!(s.get_f2() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_0::new(&mut c[..]); m.set_f2(v); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 4, 2, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_0::new(&mut c[..]); m.set_raw_f2(r); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 4, 2, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 1 && v as i64 <= (1u64 << 1) as i64 - 1 || 2 == 64 {
                let mut c = b;
                { let mut m = S4_0::new(&mut c[..]); m.set_f2(v); }
                assert!(S4_0::new(&c[..]).get_f2() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[1..2], 4, 4);
            assert!(s.get_raw_f4() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 60) as i64) >> 60;
            assert!(s.get_f4() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_0::new(&mut c[..]); m.set_f4(v); }
            assert!(updated::<true>(&b[1..2], &c[1..2], 4, 4, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_0::new(&mut c[..]); m.set_raw_f4(r); }
            assert!(updated::<true>(&b[1..2], &c[1..2], 4, 4, r as u64) && others(&b, &c, 1, 2), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 3 && v as i64 <= (1u64 << 3) as i64 - 1 || 4 == 64 {
                let mut c = b;
                { let mut m = S4_0::new(&mut c[..]); m.set_f4(v); }
                assert!(S4_0::new(&c[..]).get_f4() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[2..4], 4, 5);
            assert!(s.get_raw_f5() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 59) as i64) >> 59;
            assert!(s.get_f5() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_0::new(&mut c[..]); m.set_f5(v); }
            assert!(updated::<true>(&b[2..4], &c[2..4], 4, 5, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_0::new(&mut c[..]); m.set_raw_f5(r); }
            assert!(updated::<true>(&b[2..4], &c[2..4], 4, 5, r as u64) && others(&b, &c, 2, 4), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 4 && v as i64 <= (1u64 << 4) as i64 - 1 || 5 == 64 {
                let mut c = b;
                { let mut m = S4_0::new(&mut c[..]); m.set_f5(v); }
                assert!(S4_0::new(&c[..]).get_f5() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[3..5], 4, 6);
            assert!(s.get_raw_f6() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 58) as i64) >> 58;
            assert!(s.get_f6() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_0::new(&mut c[..]); m.set_f6(v); }
            assert!(updated::<true>(&b[3..5], &c[3..5], 4, 6, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_0::new(&mut c[..]); m.set_raw_f6(r); }
            assert!(updated::<true>(&b[3..5], &c[3..5], 4, 6, r as u64) && others(&b, &c, 3, 5), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 5 && v as i64 <= (1u64 << 5) as i64 - 1 || 6 == 64 {
                let mut c = b;
                { let mut m = S4_0::new(&mut c[..]); m.set_f6(v); }
                assert!(S4_0::new(&c[..]).get_f6() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[4..6], 4, 10);
            assert!(s.get_raw_f10() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 54) as i64) >> 54;
            assert!(s.get_f10() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_0::new(&mut c[..]); m.set_f10(v); }
            assert!(updated::<true>(&b[4..6], &c[4..6], 4, 10, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_0::new(&mut c[..]); m.set_raw_f10(r); }
            assert!(updated::<true>(&b[4..6], &c[4..6], 4, 10, r as u64) && others(&b, &c, 4, 6), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 9 && v as i64 <= (1u64 << 9) as i64 - 1 || 10 == 64 {
                let mut c = b;
                { let mut m = S4_0::new(&mut c[..]); m.set_f10(v); }
                assert!(S4_0::new(&c[..]).get_f10() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[6..8], 4, 11);
            assert!(s.get_raw_f11() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 53) as i64) >> 53;
            assert!(s.get_f11() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_0::new(&mut c[..]); m.set_f11(v); }
            assert!(updated::<true>(&b[6..8], &c[6..8], 4, 11, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_0::new(&mut c[..]); m.set_raw_f11(r); }
            assert!(updated::<true>(&b[6..8], &c[6..8], 4, 11, r as u64) && others(&b, &c, 6, 8), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 10 && v as i64 <= (1u64 << 10) as i64 - 1 || 11 == 64 {
                let mut c = b;
                { let mut m = S4_0::new(&mut c[..]); m.set_f11(v); }
                assert!(S4_0::new(&c[..]).get_f11() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[8..10], 4, 12);
            assert!(s.get_raw_f12() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 52) as i64) >> 52;
            assert!(s.get_f12() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_0::new(&mut c[..]); m.set_f12(v); }
            assert!(updated::<true>(&b[8..10], &c[8..10], 4, 12, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 8, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_0::new(&mut c[..]); m.set_raw_f12(r); }
            assert!(updated::<true>(&b[8..10], &c[8..10], 4, 12, r as u64) && others(&b, &c, 8, 10), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 11 && v as i64 <= (1u64 << 11) as i64 - 1 || 12 == 64 {
                let mut c = b;
                { let mut m = S4_0::new(&mut c[..]); m.set_f12(v); }
                assert!(S4_0::new(&c[..]).get_f12() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[10..13], 4, 13);
            assert!(s.get_raw_f13() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 51) as i64) >> 51;
            assert!(s.get_f13() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_0::new(&mut c[..]); m.set_f13(v); }
            assert!(updated::<true>(&b[10..13], &c[10..13], 4, 13, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_0::new(&mut c[..]); m.set_raw_f13(r); }
            assert!(updated::<true>(&b[10..13], &c[10..13], 4, 13, r as u64) && others(&b, &c, 10, 13), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 12 && v as i64 <= (1u64 << 12) as i64 - 1 || 13 == 64 {
                let mut c = b;
                { let mut m = S4_0::new(&mut c[..]); m.set_f13(v); }
                assert!(S4_0::new(&c[..]).get_f13() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o4_g1() {
        use crate::ibet::*;
        const N: usize = 23;
        assert!(<S4_1<()> as FixedSize>::SIZE == N && SIZE_S4_1 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S4_1::new(&b[..]);
        {
            let raw = field::<true>(&b[0..3], 4, 14);
            assert!(s.get_raw_f14() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 50) as i64) >> 50;
            assert!(s.get_f14() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_1::new(&mut c[..]); m.set_f14(v); }
            assert!(updated::<true>(&b[0..3], &c[0..3], 4, 14, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_1::new(&mut c[..]); m.set_raw_f14(r); }
            assert!(updated::<true>(&b[0..3], &c[0..3], 4, 14, r as u64) && others(&b, &c, 0, 3), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 13 && v as i64 <= (1u64 << 13) as i64 - 1 || 14 == 64 {
                let mut c = b;
                { let mut m = S4_1::new(&mut c[..]); m.set_f14(v); }
                assert!(S4_1::new(&c[..]).get_f14() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[2..5], 4, 15);
            assert!(s.get_raw_f15() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 49) as i64) >> 49;
            assert!(s.get_f15() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_1::new(&mut c[..]); m.set_f15(v); }
            assert!(updated::<true>(&b[2..5], &c[2..5], 4, 15, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_1::new(&mut c[..]); m.set_raw_f15(r); }
            assert!(updated::<true>(&b[2..5], &c[2..5], 4, 15, r as u64) && others(&b, &c, 2, 5), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 14 && v as i64 <= (1u64 << 14) as i64 - 1 || 15 == 64 {
                let mut c = b;
                { let mut m = S4_1::new(&mut c[..]); m.set_f15(v); }
                assert!(S4_1::new(&c[..]).get_f15() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[4..7], 4, 18);
            assert!(s.get_raw_f18() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 46) as i64) >> 46;
            assert!(s.get_f18() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_1::new(&mut c[..]); m.set_f18(v); }
            assert!(updated::<true>(&b[4..7], &c[4..7], 4, 18, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_1::new(&mut c[..]); m.set_raw_f18(r); }
            assert!(updated::<true>(&b[4..7], &c[4..7], 4, 18, r as u64) && others(&b, &c, 4, 7), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 17 && v as i64 <= (1u64 << 17) as i64 - 1 || 18 == 64 {
                let mut c = b;
                { let mut m = S4_1::new(&mut c[..]); m.set_f18(v); }
                assert!(S4_1::new(&c[..]).get_f18() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[7..10], 4, 19);
            assert!(s.get_raw_f19() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 45) as i64) >> 45;
            assert!(s.get_f19() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_1::new(&mut c[..]); m.set_f19(v); }
            assert!(updated::<true>(&b[7..10], &c[7..10], 4, 19, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_1::new(&mut c[..]); m.set_raw_f19(r); }
            assert!(updated::<true>(&b[7..10], &c[7..10], 4, 19, r as u64) && others(&b, &c, 7, 10), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 18 && v as i64 <= (1u64 << 18) as i64 - 1 || 19 == 64 {
                let mut c = b;
                { let mut m = S4_1::new(&mut c[..]); m.set_f19(v); }
                assert!(S4_1::new(&c[..]).get_f19() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[10..13], 4, 20);
            assert!(s.get_raw_f20() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 44) as i64) >> 44;
            assert!(s.get_f20() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_1::new(&mut c[..]); m.set_f20(v); }
            assert!(updated::<true>(&b[10..13], &c[10..13], 4, 20, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_1::new(&mut c[..]); m.set_raw_f20(r); }
            assert!(updated::<true>(&b[10..13], &c[10..13], 4, 20, r as u64) && others(&b, &c, 10, 13), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 19 && v as i64 <= (1u64 << 19) as i64 - 1 || 20 == 64 {
                let mut c = b;
                { let mut m = S4_1::new(&mut c[..]); m.set_f20(v); }
                assert!(S4_1::new(&c[..]).get_f20() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[13..17], 4, 21);
            assert!(s.get_raw_f21() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 43) as i64) >> 43;
            assert!(s.get_f21() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_1::new(&mut c[..]); m.set_f21(v); }
            assert!(updated::<true>(&b[13..17], &c[13..17], 4, 21, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 13, 17), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_1::new(&mut c[..]); m.set_raw_f21(r); }
            assert!(updated::<true>(&b[13..17], &c[13..17], 4, 21, r as u64) && others(&b, &c, 13, 17), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 20 && v as i64 <= (1u64 << 20) as i64 - 1 || 21 == 64 {
                let mut c = b;
                { let mut m = S4_1::new(&mut c[..]); m.set_f21(v); }
                assert!(S4_1::new(&c[..]).get_f21() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[16..20], 4, 22);
            assert!(s.get_raw_f22() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 42) as i64) >> 42;
            assert!(s.get_f22() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_1::new(&mut c[..]); m.set_f22(v); }
            assert!(updated::<true>(&b[16..20], &c[16..20], 4, 22, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_1::new(&mut c[..]); m.set_raw_f22(r); }
            assert!(updated::<true>(&b[16..20], &c[16..20], 4, 22, r as u64) && others(&b, &c, 16, 20), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 21 && v as i64 <= (1u64 << 21) as i64 - 1 || 22 == 64 {
                let mut c = b;
                { let mut m = S4_1::new(&mut c[..]); m.set_f22(v); }
                assert!(S4_1::new(&c[..]).get_f22() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[19..23], 4, 23);
            assert!(s.get_raw_f23() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 41) as i64) >> 41;
            assert!(s.get_f23() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_1::new(&mut c[..]); m.set_f23(v); }
            assert!(updated::<true>(&b[19..23], &c[19..23], 4, 23, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 19, 23), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_1::new(&mut c[..]); m.set_raw_f23(r); }
            assert!(updated::<true>(&b[19..23], &c[19..23], 4, 23, r as u64) && others(&b, &c, 19, 23), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 22 && v as i64 <= (1u64 << 22) as i64 - 1 || 23 == 64 {
                let mut c = b;
                { let mut m = S4_1::new(&mut c[..]); m.set_f23(v); }
                assert!(S4_1::new(&c[..]).get_f23() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o4_g2() {
        use crate::ibet::*;
        const N: usize = 34;
        assert!(<S4_2<()> as FixedSize>::SIZE == N && SIZE_S4_2 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S4_2::new(&b[..]);
        {
            let raw = field::<true>(&b[0..4], 4, 26);
            assert!(s.get_raw_f26() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 38) as i64) >> 38;
            assert!(s.get_f26() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_2::new(&mut c[..]); m.set_f26(v); }
            assert!(updated::<true>(&b[0..4], &c[0..4], 4, 26, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_2::new(&mut c[..]); m.set_raw_f26(r); }
            assert!(updated::<true>(&b[0..4], &c[0..4], 4, 26, r as u64) && others(&b, &c, 0, 4), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 25 && v as i64 <= (1u64 << 25) as i64 - 1 || 26 == 64 {
                let mut c = b;
                { let mut m = S4_2::new(&mut c[..]); m.set_f26(v); }
                assert!(S4_2::new(&c[..]).get_f26() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[4..8], 4, 27);
            assert!(s.get_raw_f27() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 37) as i64) >> 37;
            assert!(s.get_f27() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_2::new(&mut c[..]); m.set_f27(v); }
            assert!(updated::<true>(&b[4..8], &c[4..8], 4, 27, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_2::new(&mut c[..]); m.set_raw_f27(r); }
            assert!(updated::<true>(&b[4..8], &c[4..8], 4, 27, r as u64) && others(&b, &c, 4, 8), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 26 && v as i64 <= (1u64 << 26) as i64 - 1 || 27 == 64 {
                let mut c = b;
                { let mut m = S4_2::new(&mut c[..]); m.set_f27(v); }
                assert!(S4_2::new(&c[..]).get_f27() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[8..12], 4, 28);
            assert!(s.get_raw_f28() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 36) as i64) >> 36;
            assert!(s.get_f28() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_2::new(&mut c[..]); m.set_f28(v); }
            assert!(updated::<true>(&b[8..12], &c[8..12], 4, 28, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 8, 12), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_2::new(&mut c[..]); m.set_raw_f28(r); }
            assert!(updated::<true>(&b[8..12], &c[8..12], 4, 28, r as u64) && others(&b, &c, 8, 12), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 27 && v as i64 <= (1u64 << 27) as i64 - 1 || 28 == 64 {
                let mut c = b;
                { let mut m = S4_2::new(&mut c[..]); m.set_f28(v); }
                assert!(S4_2::new(&c[..]).get_f28() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[12..17], 4, 29);
            assert!(s.get_raw_f29() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 35) as i64) >> 35;
            assert!(s.get_f29() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_2::new(&mut c[..]); m.set_f29(v); }
            assert!(updated::<true>(&b[12..17], &c[12..17], 4, 29, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 17), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_2::new(&mut c[..]); m.set_raw_f29(r); }
            assert!(updated::<true>(&b[12..17], &c[12..17], 4, 29, r as u64) && others(&b, &c, 12, 17), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 28 && v as i64 <= (1u64 << 28) as i64 - 1 || 29 == 64 {
                let mut c = b;
                { let mut m = S4_2::new(&mut c[..]); m.set_f29(v); }
                assert!(S4_2::new(&c[..]).get_f29() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[16..21], 4, 30);
            assert!(s.get_raw_f30() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 34) as i64) >> 34;
            assert!(s.get_f30() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_2::new(&mut c[..]); m.set_f30(v); }
            assert!(updated::<true>(&b[16..21], &c[16..21], 4, 30, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 21), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_2::new(&mut c[..]); m.set_raw_f30(r); }
            assert!(updated::<true>(&b[16..21], &c[16..21], 4, 30, r as u64) && others(&b, &c, 16, 21), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 29 && v as i64 <= (1u64 << 29) as i64 - 1 || 30 == 64 {
                let mut c = b;
                { let mut m = S4_2::new(&mut c[..]); m.set_f30(v); }
                assert!(S4_2::new(&c[..]).get_f30() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[20..25], 4, 31);
            assert!(s.get_raw_f31() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 33) as i64) >> 33;
            assert!(s.get_f31() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_2::new(&mut c[..]); m.set_f31(v); }
            assert!(updated::<true>(&b[20..25], &c[20..25], 4, 31, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 25), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_2::new(&mut c[..]); m.set_raw_f31(r); }
            assert!(updated::<true>(&b[20..25], &c[20..25], 4, 31, r as u64) && others(&b, &c, 20, 25), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 30 && v as i64 <= (1u64 << 30) as i64 - 1 || 31 == 64 {
                let mut c = b;
                { let mut m = S4_2::new(&mut c[..]); m.set_f31(v); }
                assert!(S4_2::new(&c[..]).get_f31() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[24..29], 4, 34);
            assert!(s.get_raw_f34() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 30) as i64) >> 30;
            assert!(s.get_f34() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_2::new(&mut c[..]); m.set_f34(v); }
            assert!(updated::<true>(&b[24..29], &c[24..29], 4, 34, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 24, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_2::new(&mut c[..]); m.set_raw_f34(r); }
            assert!(updated::<true>(&b[24..29], &c[24..29], 4, 34, r as u64) && others(&b, &c, 24, 29), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 33 && v as i64 <= (1u64 << 33) as i64 - 1 || 34 == 64 {
                let mut c = b;
                { let mut m = S4_2::new(&mut c[..]); m.set_f34(v); }
                assert!(S4_2::new(&c[..]).get_f34() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[29..34], 4, 35);
            assert!(s.get_raw_f35() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 29) as i64) >> 29;
            assert!(s.get_f35() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_2::new(&mut c[..]); m.set_f35(v); }
            assert!(updated::<true>(&b[29..34], &c[29..34], 4, 35, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 29, 34), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_2::new(&mut c[..]); m.set_raw_f35(r); }
            assert!(updated::<true>(&b[29..34], &c[29..34], 4, 35, r as u64) && others(&b, &c, 29, 34), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 34 && v as i64 <= (1u64 << 34) as i64 - 1 || 35 == 64 {
                let mut c = b;
                { let mut m = S4_2::new(&mut c[..]); m.set_f35(v); }
                assert!(S4_2::new(&c[..]).get_f35() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o4_g3() {
        use crate::ibet::*;
        const N: usize = 44;
        assert!(<S4_3<()> as FixedSize>::SIZE == N && SIZE_S4_3 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S4_3::new(&b[..]);
        {
            let raw = field::<true>(&b[0..5], 4, 36);
            assert!(s.get_raw_f36() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 28) as i64) >> 28;
            assert!(s.get_f36() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_3::new(&mut c[..]); m.set_f36(v); }
            assert!(updated::<true>(&b[0..5], &c[0..5], 4, 36, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_3::new(&mut c[..]); m.set_raw_f36(r); }
            assert!(updated::<true>(&b[0..5], &c[0..5], 4, 36, r as u64) && others(&b, &c, 0, 5), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 35 && v as i64 <= (1u64 << 35) as i64 - 1 || 36 == 64 {
                let mut c = b;
                { let mut m = S4_3::new(&mut c[..]); m.set_f36(v); }
                assert!(S4_3::new(&c[..]).get_f36() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[5..11], 4, 37);
            assert!(s.get_raw_f37() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 27) as i64) >> 27;
            assert!(s.get_f37() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_3::new(&mut c[..]); m.set_f37(v); }
            assert!(updated::<true>(&b[5..11], &c[5..11], 4, 37, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 11), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_3::new(&mut c[..]); m.set_raw_f37(r); }
            assert!(updated::<true>(&b[5..11], &c[5..11], 4, 37, r as u64) && others(&b, &c, 5, 11), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 36 && v as i64 <= (1u64 << 36) as i64 - 1 || 37 == 64 {
                let mut c = b;
                { let mut m = S4_3::new(&mut c[..]); m.set_f37(v); }
                assert!(S4_3::new(&c[..]).get_f37() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[10..16], 4, 38);
            assert!(s.get_raw_f38() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 26) as i64) >> 26;
            assert!(s.get_f38() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_3::new(&mut c[..]); m.set_f38(v); }
            assert!(updated::<true>(&b[10..16], &c[10..16], 4, 38, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 16), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_3::new(&mut c[..]); m.set_raw_f38(r); }
            assert!(updated::<true>(&b[10..16], &c[10..16], 4, 38, r as u64) && others(&b, &c, 10, 16), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 37 && v as i64 <= (1u64 << 37) as i64 - 1 || 38 == 64 {
                let mut c = b;
                { let mut m = S4_3::new(&mut c[..]); m.set_f38(v); }
                assert!(S4_3::new(&c[..]).get_f38() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[15..21], 4, 39);
            assert!(s.get_raw_f39() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 25) as i64) >> 25;
            assert!(s.get_f39() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_3::new(&mut c[..]); m.set_f39(v); }
            assert!(updated::<true>(&b[15..21], &c[15..21], 4, 39, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 15, 21), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_3::new(&mut c[..]); m.set_raw_f39(r); }
            assert!(updated::<true>(&b[15..21], &c[15..21], 4, 39, r as u64) && others(&b, &c, 15, 21), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 38 && v as i64 <= (1u64 << 38) as i64 - 1 || 39 == 64 {
                let mut c = b;
                { let mut m = S4_3::new(&mut c[..]); m.set_f39(v); }
                assert!(S4_3::new(&c[..]).get_f39() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[20..26], 4, 41);
            assert!(s.get_raw_f41() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 23) as i64) >> 23;
            assert!(s.get_f41() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_3::new(&mut c[..]); m.set_f41(v); }
            assert!(updated::<true>(&b[20..26], &c[20..26], 4, 41, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 26), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_3::new(&mut c[..]); m.set_raw_f41(r); }
            assert!(updated::<true>(&b[20..26], &c[20..26], 4, 41, r as u64) && others(&b, &c, 20, 26), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 40 && v as i64 <= (1u64 << 40) as i64 - 1 || 41 == 64 {
                let mut c = b;
                { let mut m = S4_3::new(&mut c[..]); m.set_f41(v); }
                assert!(S4_3::new(&c[..]).get_f41() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[26..32], 4, 42);
            assert!(s.get_raw_f42() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 22) as i64) >> 22;
            assert!(s.get_f42() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_3::new(&mut c[..]); m.set_f42(v); }
            assert!(updated::<true>(&b[26..32], &c[26..32], 4, 42, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 26, 32), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_3::new(&mut c[..]); m.set_raw_f42(r); }
            assert!(updated::<true>(&b[26..32], &c[26..32], 4, 42, r as u64) && others(&b, &c, 26, 32), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 41 && v as i64 <= (1u64 << 41) as i64 - 1 || 42 == 64 {
                let mut c = b;
                { let mut m = S4_3::new(&mut c[..]); m.set_f42(v); }
                assert!(S4_3::new(&c[..]).get_f42() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[32..38], 4, 43);
            assert!(s.get_raw_f43() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 21) as i64) >> 21;
            assert!(s.get_f43() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_3::new(&mut c[..]); m.set_f43(v); }
            assert!(updated::<true>(&b[32..38], &c[32..38], 4, 43, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 32, 38), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_3::new(&mut c[..]); m.set_raw_f43(r); }
            assert!(updated::<true>(&b[32..38], &c[32..38], 4, 43, r as u64) && others(&b, &c, 32, 38), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 42 && v as i64 <= (1u64 << 42) as i64 - 1 || 43 == 64 {
                let mut c = b;
                { let mut m = S4_3::new(&mut c[..]); m.set_f43(v); }
                assert!(S4_3::new(&c[..]).get_f43() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[38..44], 4, 44);
            assert!(s.get_raw_f44() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 20) as i64) >> 20;
            assert!(s.get_f44() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_3::new(&mut c[..]); m.set_f44(v); }
            assert!(updated::<true>(&b[38..44], &c[38..44], 4, 44, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 38, 44), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_3::new(&mut c[..]); m.set_raw_f44(r); }
            assert!(updated::<true>(&b[38..44], &c[38..44], 4, 44, r as u64) && others(&b, &c, 38, 44), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 43 && v as i64 <= (1u64 << 43) as i64 - 1 || 44 == 64 {
                let mut c = b;
                { let mut m = S4_3::new(&mut c[..]); m.set_f44(v); }
                assert!(S4_3::new(&c[..]).get_f44() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o4_g4() {
        use crate::ibet::*;
        const N: usize = 52;
        assert!(<S4_4<()> as FixedSize>::SIZE == N && SIZE_S4_4 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S4_4::new(&b[..]);
        {
            let raw = field::<true>(&b[0..7], 4, 45);
            assert!(s.get_raw_f45() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 19) as i64) >> 19;
            assert!(s.get_f45() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_4::new(&mut c[..]); m.set_f45(v); }
            assert!(updated::<true>(&b[0..7], &c[0..7], 4, 45, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_4::new(&mut c[..]); m.set_raw_f45(r); }
            assert!(updated::<true>(&b[0..7], &c[0..7], 4, 45, r as u64) && others(&b, &c, 0, 7), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 44 && v as i64 <= (1u64 << 44) as i64 - 1 || 45 == 64 {
                let mut c = b;
                { let mut m = S4_4::new(&mut c[..]); m.set_f45(v); }
                assert!(S4_4::new(&c[..]).get_f45() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[6..13], 4, 46);
            assert!(s.get_raw_f46() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 18) as i64) >> 18;
            assert!(s.get_f46() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_4::new(&mut c[..]); m.set_f46(v); }
            assert!(updated::<true>(&b[6..13], &c[6..13], 4, 46, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_4::new(&mut c[..]); m.set_raw_f46(r); }
            assert!(updated::<true>(&b[6..13], &c[6..13], 4, 46, r as u64) && others(&b, &c, 6, 13), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 45 && v as i64 <= (1u64 << 45) as i64 - 1 || 46 == 64 {
                let mut c = b;
                { let mut m = S4_4::new(&mut c[..]); m.set_f46(v); }
                assert!(S4_4::new(&c[..]).get_f46() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[12..19], 4, 47);
            assert!(s.get_raw_f47() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 17) as i64) >> 17;
            assert!(s.get_f47() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_4::new(&mut c[..]); m.set_f47(v); }
            assert!(updated::<true>(&b[12..19], &c[12..19], 4, 47, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_4::new(&mut c[..]); m.set_raw_f47(r); }
            assert!(updated::<true>(&b[12..19], &c[12..19], 4, 47, r as u64) && others(&b, &c, 12, 19), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 46 && v as i64 <= (1u64 << 46) as i64 - 1 || 47 == 64 {
                let mut c = b;
                { let mut m = S4_4::new(&mut c[..]); m.set_f47(v); }
                assert!(S4_4::new(&c[..]).get_f47() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[18..25], 4, 48);
            assert!(s.get_raw_f48() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 16) as i64) >> 16;
            assert!(s.get_f48() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_4::new(&mut c[..]); m.set_f48(v); }
            assert!(updated::<true>(&b[18..25], &c[18..25], 4, 48, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 18, 25), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_4::new(&mut c[..]); m.set_raw_f48(r); }
            assert!(updated::<true>(&b[18..25], &c[18..25], 4, 48, r as u64) && others(&b, &c, 18, 25), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 47 && v as i64 <= (1u64 << 47) as i64 - 1 || 48 == 64 {
                let mut c = b;
                { let mut m = S4_4::new(&mut c[..]); m.set_f48(v); }
                assert!(S4_4::new(&c[..]).get_f48() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[24..31], 4, 49);
            assert!(s.get_raw_f49() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 15) as i64) >> 15;
            assert!(s.get_f49() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_4::new(&mut c[..]); m.set_f49(v); }
            assert!(updated::<true>(&b[24..31], &c[24..31], 4, 49, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 24, 31), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_4::new(&mut c[..]); m.set_raw_f49(r); }
            assert!(updated::<true>(&b[24..31], &c[24..31], 4, 49, r as u64) && others(&b, &c, 24, 31), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 48 && v as i64 <= (1u64 << 48) as i64 - 1 || 49 == 64 {
                let mut c = b;
                { let mut m = S4_4::new(&mut c[..]); m.set_f49(v); }
                assert!(S4_4::new(&c[..]).get_f49() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[31..38], 4, 50);
            assert!(s.get_raw_f50() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 14) as i64) >> 14;
            assert!(s.get_f50() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_4::new(&mut c[..]); m.set_f50(v); }
            assert!(updated::<true>(&b[31..38], &c[31..38], 4, 50, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 31, 38), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_4::new(&mut c[..]); m.set_raw_f50(r); }
            assert!(updated::<true>(&b[31..38], &c[31..38], 4, 50, r as u64) && others(&b, &c, 31, 38), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 49 && v as i64 <= (1u64 << 49) as i64 - 1 || 50 == 64 {
                let mut c = b;
                { let mut m = S4_4::new(&mut c[..]); m.set_f50(v); }
                assert!(S4_4::new(&c[..]).get_f50() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[38..45], 4, 51);
            assert!(s.get_raw_f51() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 13) as i64) >> 13;
            assert!(s.get_f51() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_4::new(&mut c[..]); m.set_f51(v); }
            assert!(updated::<true>(&b[38..45], &c[38..45], 4, 51, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 38, 45), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_4::new(&mut c[..]); m.set_raw_f51(r); }
            assert!(updated::<true>(&b[38..45], &c[38..45], 4, 51, r as u64) && others(&b, &c, 38, 45), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 50 && v as i64 <= (1u64 << 50) as i64 - 1 || 51 == 64 {
                let mut c = b;
                { let mut m = S4_4::new(&mut c[..]); m.set_f51(v); }
                assert!(S4_4::new(&c[..]).get_f51() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[45..52], 4, 52);
            assert!(s.get_raw_f52() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 12) as i64) >> 12;
            assert!(s.get_f52() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_4::new(&mut c[..]); m.set_f52(v); }
            assert!(updated::<true>(&b[45..52], &c[45..52], 4, 52, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 45, 52), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_4::new(&mut c[..]); m.set_raw_f52(r); }
            assert!(updated::<true>(&b[45..52], &c[45..52], 4, 52, r as u64) && others(&b, &c, 45, 52), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 51 && v as i64 <= (1u64 << 51) as i64 - 1 || 52 == 64 {
                let mut c = b;
                { let mut m = S4_4::new(&mut c[..]); m.set_f52(v); }
                assert!(S4_4::new(&c[..]).get_f52() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o4_g5() {
        use crate::ibet::*;
        const N: usize = 62;
        assert!(<S4_5<()> as FixedSize>::SIZE == N && SIZE_S4_5 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S4_5::new(&b[..]);
        {
            let raw = field::<true>(&b[0..8], 4, 53);
            assert!(s.get_raw_f53() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 11) as i64) >> 11;
            assert!(s.get_f53() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_5::new(&mut c[..]); m.set_f53(v); }
            assert!(updated::<true>(&b[0..8], &c[0..8], 4, 53, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_5::new(&mut c[..]); m.set_raw_f53(r); }
            assert!(updated::<true>(&b[0..8], &c[0..8], 4, 53, r as u64) && others(&b, &c, 0, 8), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 52 && v as i64 <= (1u64 << 52) as i64 - 1 || 53 == 64 {
                let mut c = b;
                { let mut m = S4_5::new(&mut c[..]); m.set_f53(v); }
                assert!(S4_5::new(&c[..]).get_f53() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[7..15], 4, 54);
            assert!(s.get_raw_f54() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 10) as i64) >> 10;
            assert!(s.get_f54() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_5::new(&mut c[..]); m.set_f54(v); }
            assert!(updated::<true>(&b[7..15], &c[7..15], 4, 54, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 15), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_5::new(&mut c[..]); m.set_raw_f54(r); }
            assert!(updated::<true>(&b[7..15], &c[7..15], 4, 54, r as u64) && others(&b, &c, 7, 15), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 53 && v as i64 <= (1u64 << 53) as i64 - 1 || 54 == 64 {
                let mut c = b;
                { let mut m = S4_5::new(&mut c[..]); m.set_f54(v); }
                assert!(S4_5::new(&c[..]).get_f54() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[14..22], 4, 55);
            assert!(s.get_raw_f55() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 9) as i64) >> 9;
            assert!(s.get_f55() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_5::new(&mut c[..]); m.set_f55(v); }
            assert!(updated::<true>(&b[14..22], &c[14..22], 4, 55, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 14, 22), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_5::new(&mut c[..]); m.set_raw_f55(r); }
            assert!(updated::<true>(&b[14..22], &c[14..22], 4, 55, r as u64) && others(&b, &c, 14, 22), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 54 && v as i64 <= (1u64 << 54) as i64 - 1 || 55 == 64 {
                let mut c = b;
                { let mut m = S4_5::new(&mut c[..]); m.set_f55(v); }
                assert!(S4_5::new(&c[..]).get_f55() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[21..29], 4, 58);
            assert!(s.get_raw_f58() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 6) as i64) >> 6;
            assert!(s.get_f58() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_5::new(&mut c[..]); m.set_f58(v); }
            assert!(updated::<true>(&b[21..29], &c[21..29], 4, 58, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 21, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_5::new(&mut c[..]); m.set_raw_f58(r); }
            assert!(updated::<true>(&b[21..29], &c[21..29], 4, 58, r as u64) && others(&b, &c, 21, 29), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 57 && v as i64 <= (1u64 << 57) as i64 - 1 || 58 == 64 {
                let mut c = b;
                { let mut m = S4_5::new(&mut c[..]); m.set_f58(v); }
                assert!(S4_5::new(&c[..]).get_f58() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[29..37], 4, 59);
            assert!(s.get_raw_f59() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 5) as i64) >> 5;
            assert!(s.get_f59() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_5::new(&mut c[..]); m.set_f59(v); }
            assert!(updated::<true>(&b[29..37], &c[29..37], 4, 59, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 29, 37), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_5::new(&mut c[..]); m.set_raw_f59(r); }
            assert!(updated::<true>(&b[29..37], &c[29..37], 4, 59, r as u64) && others(&b, &c, 29, 37), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 58 && v as i64 <= (1u64 << 58) as i64 - 1 || 59 == 64 {
                let mut c = b;
                { let mut m = S4_5::new(&mut c[..]); m.set_f59(v); }
                assert!(S4_5::new(&c[..]).get_f59() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[37..45], 4, 60);
            assert!(s.get_raw_f60() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 4) as i64) >> 4;
            assert!(s.get_f60() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_5::new(&mut c[..]); m.set_f60(v); }
            assert!(updated::<true>(&b[37..45], &c[37..45], 4, 60, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 37, 45), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_5::new(&mut c[..]); m.set_raw_f60(r); }
            assert!(updated::<true>(&b[37..45], &c[37..45], 4, 60, r as u64) && others(&b, &c, 37, 45), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 59 && v as i64 <= (1u64 << 59) as i64 - 1 || 60 == 64 {
                let mut c = b;
                { let mut m = S4_5::new(&mut c[..]); m.set_f60(v); }
                assert!(S4_5::new(&c[..]).get_f60() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[45..54], 4, 61);
            assert!(s.get_raw_f61() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 3) as i64) >> 3;
            assert!(s.get_f61() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_5::new(&mut c[..]); m.set_f61(v); }
            assert!(updated::<true>(&b[45..54], &c[45..54], 4, 61, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 45, 54), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_5::new(&mut c[..]); m.set_raw_f61(r); }
            assert!(updated::<true>(&b[45..54], &c[45..54], 4, 61, r as u64) && others(&b, &c, 45, 54), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 60 && v as i64 <= (1u64 << 60) as i64 - 1 || 61 == 64 {
                let mut c = b;
                { let mut m = S4_5::new(&mut c[..]); m.set_f61(v); }
                assert!(S4_5::new(&c[..]).get_f61() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[53..62], 4, 62);
            assert!(s.get_raw_f62() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 2) as i64) >> 2;
            assert!(s.get_f62() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S4_5::new(&mut c[..]); m.set_f62(v); }
            assert!(updated::<true>(&b[53..62], &c[53..62], 4, 62, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 53, 62), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S4_5::new(&mut c[..]); m.set_raw_f62(r); }
            assert!(updated::<true>(&b[53..62], &c[53..62], 4, 62, r as u64) && others(&b, &c, 53, 62), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 61 && v as i64 <= (1u64 << 61) as i64 - 1 || 62 == 64 {
                let mut c = b;
                { let mut m = S4_5::new(&mut c[..]); m.set_f62(v); }
                assert!(S4_5::new(&c[..]).get_f62() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o5_g0() {
        use crate::ibet::*;
        const N: usize = 13;
        assert!(<S5_0<()> as FixedSize>::SIZE == N && SIZE_S5_0 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S5_0::new(&b[..]);
        {
            let raw = field::<true>(&b[0..1], 5, 2);
            assert!(s.get_raw_f2() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 62) as i64) >> 62;
            assert!(s.get_f2() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_0::new(&mut c[..]); m.set_f2(v); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 5, 2, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_0::new(&mut c[..]); m.set_raw_f2(r); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 5, 2, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 1 && v as i64 <= (1u64 << 1) as i64 - 1 || 2 == 64 {
                let mut c = b;
                { let mut m = S5_0::new(&mut c[..]); m.set_f2(v); }
                assert!(S5_0::new(&c[..]).get_f2() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[1..3], 5, 4);
            assert!(s.get_raw_f4() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 60) as i64) >> 60;
            assert!(s.get_f4() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_0::new(&mut c[..]); m.set_f4(v); }
            assert!(updated::<true>(&b[1..3], &c[1..3], 5, 4, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_0::new(&mut c[..]); m.set_raw_f4(r); }
            assert!(updated::<true>(&b[1..3], &c[1..3], 5, 4, r as u64) && others(&b, &c, 1, 3), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 3 && v as i64 <= (1u64 << 3) as i64 - 1 || 4 == 64 {
                let mut c = b;
                { let mut m = S5_0::new(&mut c[..]); m.set_f4(v); }
                assert!(S5_0::new(&c[..]).get_f4() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[2..4], 5, 5);
            assert!(s.get_raw_f5() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 59) as i64) >> 59;
            assert!(s.get_f5() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_0::new(&mut c[..]); m.set_f5(v); }
            assert!(updated::<true>(&b[2..4], &c[2..4], 5, 5, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_0::new(&mut c[..]); m.set_raw_f5(r); }
            assert!(updated::<true>(&b[2..4], &c[2..4], 5, 5, r as u64) && others(&b, &c, 2, 4), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 4 && v as i64 <= (1u64 << 4) as i64 - 1 || 5 == 64 {
                let mut c = b;
                { let mut m = S5_0::new(&mut c[..]); m.set_f5(v); }
                assert!(S5_0::new(&c[..]).get_f5() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[3..5], 5, 6);
            assert!(s.get_raw_f6() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 58) as i64) >> 58;
            assert!(s.get_f6() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_0::new(&mut c[..]); m.set_f6(v); }
            assert!(updated::<true>(&b[3..5], &c[3..5], 5, 6, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_0::new(&mut c[..]); m.set_raw_f6(r); }
            assert!(updated::<true>(&b[3..5], &c[3..5], 5, 6, r as u64) && others(&b, &c, 3, 5), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 5 && v as i64 <= (1u64 << 5) as i64 - 1 || 6 == 64 {
                let mut c = b;
                { let mut m = S5_0::new(&mut c[..]); m.set_f6(v); }
                assert!(S5_0::new(&c[..]).get_f6() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[4..6], 5, 10);
            assert!(s.get_raw_f10() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 54) as i64) >> 54;
            assert!(s.get_f10() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_0::new(&mut c[..]); m.set_f10(v); }
            assert!(updated::<true>(&b[4..6], &c[4..6], 5, 10, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_0::new(&mut c[..]); m.set_raw_f10(r); }
            assert!(updated::<true>(&b[4..6], &c[4..6], 5, 10, r as u64) && others(&b, &c, 4, 6), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 9 && v as i64 <= (1u64 << 9) as i64 - 1 || 10 == 64 {
                let mut c = b;
                { let mut m = S5_0::new(&mut c[..]); m.set_f10(v); }
                assert!(S5_0::new(&c[..]).get_f10() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[6..8], 5, 11);
            assert!(s.get_raw_f11() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 53) as i64) >> 53;
            assert!(s.get_f11() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_0::new(&mut c[..]); m.set_f11(v); }
            assert!(updated::<true>(&b[6..8], &c[6..8], 5, 11, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_0::new(&mut c[..]); m.set_raw_f11(r); }
            assert!(updated::<true>(&b[6..8], &c[6..8], 5, 11, r as u64) && others(&b, &c, 6, 8), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 10 && v as i64 <= (1u64 << 10) as i64 - 1 || 11 == 64 {
                let mut c = b;
                { let mut m = S5_0::new(&mut c[..]); m.set_f11(v); }
                assert!(S5_0::new(&c[..]).get_f11() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[8..11], 5, 12);
            assert!(s.get_raw_f12() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 52) as i64) >> 52;
            assert!(s.get_f12() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_0::new(&mut c[..]); m.set_f12(v); }
            assert!(updated::<true>(&b[8..11], &c[8..11], 5, 12, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 8, 11), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_0::new(&mut c[..]); m.set_raw_f12(r); }
            assert!(updated::<true>(&b[8..11], &c[8..11], 5, 12, r as u64) && others(&b, &c, 8, 11), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 11 && v as i64 <= (1u64 << 11) as i64 - 1 || 12 == 64 {
                let mut c = b;
                { let mut m = S5_0::new(&mut c[..]); m.set_f12(v); }
                assert!(S5_0::new(&c[..]).get_f12() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[10..13], 5, 13);
            assert!(s.get_raw_f13() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 51) as i64) >> 51;
            assert!(s.get_f13() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_0::new(&mut c[..]); m.set_f13(v); }
            assert!(updated::<true>(&b[10..13], &c[10..13], 5, 13, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_0::new(&mut c[..]); m.set_raw_f13(r); }
            assert!(updated::<true>(&b[10..13], &c[10..13], 5, 13, r as u64) && others(&b, &c, 10, 13), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 12 && v as i64 <= (1u64 << 12) as i64 - 1 || 13 == 64 {
                let mut c = b;
                { let mut m = S5_0::new(&mut c[..]); m.set_f13(v); }
                assert!(S5_0::new(&c[..]).get_f13() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o5_g1() {
        use crate::ibet::*;
        const N: usize = 23;
        assert!(<S5_1<()> as FixedSize>::SIZE == N && SIZE_S5_1 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S5_1::new(&b[..]);
        {
            let raw = field::<true>(&b[0..3], 5, 14);
            assert!(s.get_raw_f14() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 50) as i64) >> 50;
            assert!(s.get_f14() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_1::new(&mut c[..]); m.set_f14(v); }
            assert!(updated::<true>(&b[0..3], &c[0..3], 5, 14, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_1::new(&mut c[..]); m.set_raw_f14(r); }
            assert!(updated::<true>(&b[0..3], &c[0..3], 5, 14, r as u64) && others(&b, &c, 0, 3), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 13 && v as i64 <= (1u64 << 13) as i64 - 1 || 14 == 64 {
                let mut c = b;
                { let mut m = S5_1::new(&mut c[..]); m.set_f14(v); }
                assert!(S5_1::new(&c[..]).get_f14() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[2..5], 5, 15);
            assert!(s.get_raw_f15() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 49) as i64) >> 49;
            assert!(s.get_f15() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_1::new(&mut c[..]); m.set_f15(v); }
            assert!(updated::<true>(&b[2..5], &c[2..5], 5, 15, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_1::new(&mut c[..]); m.set_raw_f15(r); }
            assert!(updated::<true>(&b[2..5], &c[2..5], 5, 15, r as u64) && others(&b, &c, 2, 5), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 14 && v as i64 <= (1u64 << 14) as i64 - 1 || 15 == 64 {
                let mut c = b;
                { let mut m = S5_1::new(&mut c[..]); m.set_f15(v); }
                assert!(S5_1::new(&c[..]).get_f15() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[4..7], 5, 18);
            assert!(s.get_raw_f18() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 46) as i64) >> 46;
            assert!(s.get_f18() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_1::new(&mut c[..]); m.set_f18(v); }
            assert!(updated::<true>(&b[4..7], &c[4..7], 5, 18, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_1::new(&mut c[..]); m.set_raw_f18(r); }
            assert!(updated::<true>(&b[4..7], &c[4..7], 5, 18, r as u64) && others(&b, &c, 4, 7), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 17 && v as i64 <= (1u64 << 17) as i64 - 1 || 18 == 64 {
                let mut c = b;
                { let mut m = S5_1::new(&mut c[..]); m.set_f18(v); }
                assert!(S5_1::new(&c[..]).get_f18() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[7..10], 5, 19);
            assert!(s.get_raw_f19() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 45) as i64) >> 45;
            assert!(s.get_f19() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_1::new(&mut c[..]); m.set_f19(v); }
            assert!(updated::<true>(&b[7..10], &c[7..10], 5, 19, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_1::new(&mut c[..]); m.set_raw_f19(r); }
            assert!(updated::<true>(&b[7..10], &c[7..10], 5, 19, r as u64) && others(&b, &c, 7, 10), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 18 && v as i64 <= (1u64 << 18) as i64 - 1 || 19 == 64 {
                let mut c = b;
                { let mut m = S5_1::new(&mut c[..]); m.set_f19(v); }
                assert!(S5_1::new(&c[..]).get_f19() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[10..14], 5, 20);
            assert!(s.get_raw_f20() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 44) as i64) >> 44;
            assert!(s.get_f20() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_1::new(&mut c[..]); m.set_f20(v); }
            assert!(updated::<true>(&b[10..14], &c[10..14], 5, 20, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 14), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_1::new(&mut c[..]); m.set_raw_f20(r); }
            assert!(updated::<true>(&b[10..14], &c[10..14], 5, 20, r as u64) && others(&b, &c, 10, 14), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 19 && v as i64 <= (1u64 << 19) as i64 - 1 || 20 == 64 {
                let mut c = b;
                { let mut m = S5_1::new(&mut c[..]); m.set_f20(v); }
                assert!(S5_1::new(&c[..]).get_f20() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[13..17], 5, 21);
            assert!(s.get_raw_f21() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 43) as i64) >> 43;
            assert!(s.get_f21() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_1::new(&mut c[..]); m.set_f21(v); }
            assert!(updated::<true>(&b[13..17], &c[13..17], 5, 21, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 13, 17), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_1::new(&mut c[..]); m.set_raw_f21(r); }
            assert!(updated::<true>(&b[13..17], &c[13..17], 5, 21, r as u64) && others(&b, &c, 13, 17), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 20 && v as i64 <= (1u64 << 20) as i64 - 1 || 21 == 64 {
                let mut c = b;
                { let mut m = S5_1::new(&mut c[..]); m.set_f21(v); }
                assert!(S5_1::new(&c[..]).get_f21() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[16..20], 5, 22);
            assert!(s.get_raw_f22() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 42) as i64) >> 42;
            assert!(s.get_f22() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_1::new(&mut c[..]); m.set_f22(v); }
            assert!(updated::<true>(&b[16..20], &c[16..20], 5, 22, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_1::new(&mut c[..]); m.set_raw_f22(r); }
            assert!(updated::<true>(&b[16..20], &c[16..20], 5, 22, r as u64) && others(&b, &c, 16, 20), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 21 && v as i64 <= (1u64 << 21) as i64 - 1 || 22 == 64 {
                let mut c = b;
                { let mut m = S5_1::new(&mut c[..]); m.set_f22(v); }
                assert!(S5_1::new(&c[..]).get_f22() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[19..23], 5, 23);
            assert!(s.get_raw_f23() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 41) as i64) >> 41;
            assert!(s.get_f23() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_1::new(&mut c[..]); m.set_f23(v); }
            assert!(updated::<true>(&b[19..23], &c[19..23], 5, 23, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 19, 23), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_1::new(&mut c[..]); m.set_raw_f23(r); }
            assert!(updated::<true>(&b[19..23], &c[19..23], 5, 23, r as u64) && others(&b, &c, 19, 23), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 22 && v as i64 <= (1u64 << 22) as i64 - 1 || 23 == 64 {
                let mut c = b;
                { let mut m = S5_1::new(&mut c[..]); m.set_f23(v); }
                assert!(S5_1::new(&c[..]).get_f23() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o5_g2() {
        use crate::ibet::*;
        const N: usize = 34;
        assert!(<S5_2<()> as FixedSize>::SIZE == N && SIZE_S5_2 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S5_2::new(&b[..]);
        {
            let raw = field::<true>(&b[0..4], 5, 26);
            assert!(s.get_raw_f26() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 38) as i64) >> 38;
            assert!(s.get_f26() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_2::new(&mut c[..]); m.set_f26(v); }
            assert!(updated::<true>(&b[0..4], &c[0..4], 5, 26, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_2::new(&mut c[..]); m.set_raw_f26(r); }
            assert!(updated::<true>(&b[0..4], &c[0..4], 5, 26, r as u64) && others(&b, &c, 0, 4), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 25 && v as i64 <= (1u64 << 25) as i64 - 1 || 26 == 64 {
                let mut c = b;
                { let mut m = S5_2::new(&mut c[..]); m.set_f26(v); }
                assert!(S5_2::new(&c[..]).get_f26() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[4..8], 5, 27);
            assert!(s.get_raw_f27() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 37) as i64) >> 37;
            assert!(s.get_f27() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_2::new(&mut c[..]); m.set_f27(v); }
            assert!(updated::<true>(&b[4..8], &c[4..8], 5, 27, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_2::new(&mut c[..]); m.set_raw_f27(r); }
            assert!(updated::<true>(&b[4..8], &c[4..8], 5, 27, r as u64) && others(&b, &c, 4, 8), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 26 && v as i64 <= (1u64 << 26) as i64 - 1 || 27 == 64 {
                let mut c = b;
                { let mut m = S5_2::new(&mut c[..]); m.set_f27(v); }
                assert!(S5_2::new(&c[..]).get_f27() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[8..13], 5, 28);
            assert!(s.get_raw_f28() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 36) as i64) >> 36;
            assert!(s.get_f28() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_2::new(&mut c[..]); m.set_f28(v); }
            assert!(updated::<true>(&b[8..13], &c[8..13], 5, 28, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 8, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_2::new(&mut c[..]); m.set_raw_f28(r); }
            assert!(updated::<true>(&b[8..13], &c[8..13], 5, 28, r as u64) && others(&b, &c, 8, 13), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 27 && v as i64 <= (1u64 << 27) as i64 - 1 || 28 == 64 {
                let mut c = b;
                { let mut m = S5_2::new(&mut c[..]); m.set_f28(v); }
                assert!(S5_2::new(&c[..]).get_f28() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[12..17], 5, 29);
            assert!(s.get_raw_f29() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 35) as i64) >> 35;
            assert!(s.get_f29() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_2::new(&mut c[..]); m.set_f29(v); }
            assert!(updated::<true>(&b[12..17], &c[12..17], 5, 29, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 17), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_2::new(&mut c[..]); m.set_raw_f29(r); }
            assert!(updated::<true>(&b[12..17], &c[12..17], 5, 29, r as u64) && others(&b, &c, 12, 17), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 28 && v as i64 <= (1u64 << 28) as i64 - 1 || 29 == 64 {
                let mut c = b;
                { let mut m = S5_2::new(&mut c[..]); m.set_f29(v); }
                assert!(S5_2::new(&c[..]).get_f29() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[16..21], 5, 30);
            assert!(s.get_raw_f30() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 34) as i64) >> 34;
            assert!(s.get_f30() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_2::new(&mut c[..]); m.set_f30(v); }
            assert!(updated::<true>(&b[16..21], &c[16..21], 5, 30, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 21), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_2::new(&mut c[..]); m.set_raw_f30(r); }
            assert!(updated::<true>(&b[16..21], &c[16..21], 5, 30, r as u64) && others(&b, &c, 16, 21), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 29 && v as i64 <= (1u64 << 29) as i64 - 1 || 30 == 64 {
                let mut c = b;
                { let mut m = S5_2::new(&mut c[..]); m.set_f30(v); }
                assert!(S5_2::new(&c[..]).get_f30() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[20..25], 5, 31);
            assert!(s.get_raw_f31() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 33) as i64) >> 33;
            assert!(s.get_f31() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_2::new(&mut c[..]); m.set_f31(v); }
            assert!(updated::<true>(&b[20..25], &c[20..25], 5, 31, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 25), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_2::new(&mut c[..]); m.set_raw_f31(r); }
            assert!(updated::<true>(&b[20..25], &c[20..25], 5, 31, r as u64) && others(&b, &c, 20, 25), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 30 && v as i64 <= (1u64 << 30) as i64 - 1 || 31 == 64 {
                let mut c = b;
                { let mut m = S5_2::new(&mut c[..]); m.set_f31(v); }
                assert!(S5_2::new(&c[..]).get_f31() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[24..29], 5, 34);
            assert!(s.get_raw_f34() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 30) as i64) >> 30;
            assert!(s.get_f34() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_2::new(&mut c[..]); m.set_f34(v); }
            assert!(updated::<true>(&b[24..29], &c[24..29], 5, 34, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 24, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_2::new(&mut c[..]); m.set_raw_f34(r); }
            assert!(updated::<true>(&b[24..29], &c[24..29], 5, 34, r as u64) && others(&b, &c, 24, 29), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 33 && v as i64 <= (1u64 << 33) as i64 - 1 || 34 == 64 {
                let mut c = b;
                { let mut m = S5_2::new(&mut c[..]); m.set_f34(v); }
                assert!(S5_2::new(&c[..]).get_f34() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[29..34], 5, 35);
            assert!(s.get_raw_f35() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 29) as i64) >> 29;
            assert!(s.get_f35() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_2::new(&mut c[..]); m.set_f35(v); }
            assert!(updated::<true>(&b[29..34], &c[29..34], 5, 35, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 29, 34), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_2::new(&mut c[..]); m.set_raw_f35(r); }
            assert!(updated::<true>(&b[29..34], &c[29..34], 5, 35, r as u64) && others(&b, &c, 29, 34), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 34 && v as i64 <= (1u64 << 34) as i64 - 1 || 35 == 64 {
                let mut c = b;
                { let mut m = S5_2::new(&mut c[..]); m.set_f35(v); }
                assert!(S5_2::new(&c[..]).get_f35() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o5_g3() {
        use crate::ibet::*;
        const N: usize = 45;
        assert!(<S5_3<()> as FixedSize>::SIZE == N && SIZE_S5_3 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S5_3::new(&b[..]);
        {
            let raw = field::<true>(&b[0..6], 5, 36);
            assert!(s.get_raw_f36() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 28) as i64) >> 28;
            assert!(s.get_f36() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_3::new(&mut c[..]); m.set_f36(v); }
            assert!(updated::<true>(&b[0..6], &c[0..6], 5, 36, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_3::new(&mut c[..]); m.set_raw_f36(r); }
            assert!(updated::<true>(&b[0..6], &c[0..6], 5, 36, r as u64) && others(&b, &c, 0, 6), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 35 && v as i64 <= (1u64 << 35) as i64 - 1 || 36 == 64 {
                let mut c = b;
                { let mut m = S5_3::new(&mut c[..]); m.set_f36(v); }
                assert!(S5_3::new(&c[..]).get_f36() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[5..11], 5, 37);
            assert!(s.get_raw_f37() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 27) as i64) >> 27;
            assert!(s.get_f37() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_3::new(&mut c[..]); m.set_f37(v); }
            assert!(updated::<true>(&b[5..11], &c[5..11], 5, 37, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 11), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_3::new(&mut c[..]); m.set_raw_f37(r); }
            assert!(updated::<true>(&b[5..11], &c[5..11], 5, 37, r as u64) && others(&b, &c, 5, 11), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 36 && v as i64 <= (1u64 << 36) as i64 - 1 || 37 == 64 {
                let mut c = b;
                { let mut m = S5_3::new(&mut c[..]); m.set_f37(v); }
                assert!(S5_3::new(&c[..]).get_f37() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[10..16], 5, 38);
            assert!(s.get_raw_f38() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 26) as i64) >> 26;
            assert!(s.get_f38() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_3::new(&mut c[..]); m.set_f38(v); }
            assert!(updated::<true>(&b[10..16], &c[10..16], 5, 38, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 16), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_3::new(&mut c[..]); m.set_raw_f38(r); }
            assert!(updated::<true>(&b[10..16], &c[10..16], 5, 38, r as u64) && others(&b, &c, 10, 16), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 37 && v as i64 <= (1u64 << 37) as i64 - 1 || 38 == 64 {
                let mut c = b;
                { let mut m = S5_3::new(&mut c[..]); m.set_f38(v); }
                assert!(S5_3::new(&c[..]).get_f38() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[15..21], 5, 39);
            assert!(s.get_raw_f39() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 25) as i64) >> 25;
            assert!(s.get_f39() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_3::new(&mut c[..]); m.set_f39(v); }
            assert!(updated::<true>(&b[15..21], &c[15..21], 5, 39, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 15, 21), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_3::new(&mut c[..]); m.set_raw_f39(r); }
            assert!(updated::<true>(&b[15..21], &c[15..21], 5, 39, r as u64) && others(&b, &c, 15, 21), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 38 && v as i64 <= (1u64 << 38) as i64 - 1 || 39 == 64 {
                let mut c = b;
                { let mut m = S5_3::new(&mut c[..]); m.set_f39(v); }
                assert!(S5_3::new(&c[..]).get_f39() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[20..26], 5, 41);
            assert!(s.get_raw_f41() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 23) as i64) >> 23;
            assert!(s.get_f41() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_3::new(&mut c[..]); m.set_f41(v); }
            assert!(updated::<true>(&b[20..26], &c[20..26], 5, 41, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 26), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_3::new(&mut c[..]); m.set_raw_f41(r); }
            assert!(updated::<true>(&b[20..26], &c[20..26], 5, 41, r as u64) && others(&b, &c, 20, 26), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 40 && v as i64 <= (1u64 << 40) as i64 - 1 || 41 == 64 {
                let mut c = b;
                { let mut m = S5_3::new(&mut c[..]); m.set_f41(v); }
                assert!(S5_3::new(&c[..]).get_f41() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[26..32], 5, 42);
            assert!(s.get_raw_f42() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 22) as i64) >> 22;
            assert!(s.get_f42() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_3::new(&mut c[..]); m.set_f42(v); }
            assert!(updated::<true>(&b[26..32], &c[26..32], 5, 42, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 26, 32), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_3::new(&mut c[..]); m.set_raw_f42(r); }
            assert!(updated::<true>(&b[26..32], &c[26..32], 5, 42, r as u64) && others(&b, &c, 26, 32), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 41 && v as i64 <= (1u64 << 41) as i64 - 1 || 42 == 64 {
                let mut c = b;
                { let mut m = S5_3::new(&mut c[..]); m.set_f42(v); }
                assert!(S5_3::new(&c[..]).get_f42() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[32..38], 5, 43);
            assert!(s.get_raw_f43() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 21) as i64) >> 21;
            assert!(s.get_f43() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_3::new(&mut c[..]); m.set_f43(v); }
            assert!(updated::<true>(&b[32..38], &c[32..38], 5, 43, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 32, 38), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_3::new(&mut c[..]); m.set_raw_f43(r); }
            assert!(updated::<true>(&b[32..38], &c[32..38], 5, 43, r as u64) && others(&b, &c, 32, 38), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 42 && v as i64 <= (1u64 << 42) as i64 - 1 || 43 == 64 {
                let mut c = b;
                { let mut m = S5_3::new(&mut c[..]); m.set_f43(v); }
                assert!(S5_3::new(&c[..]).get_f43() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[38..45], 5, 44);
            assert!(s.get_raw_f44() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 20) as i64) >> 20;
            assert!(s.get_f44() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_3::new(&mut c[..]); m.set_f44(v); }
            assert!(updated::<true>(&b[38..45], &c[38..45], 5, 44, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 38, 45), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_3::new(&mut c[..]); m.set_raw_f44(r); }
            assert!(updated::<true>(&b[38..45], &c[38..45], 5, 44, r as u64) && others(&b, &c, 38, 45), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 43 && v as i64 <= (1u64 << 43) as i64 - 1 || 44 == 64 {
                let mut c = b;
                { let mut m = S5_3::new(&mut c[..]); m.set_f44(v); }
                assert!(S5_3::new(&c[..]).get_f44() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o5_g4() {
        use crate::ibet::*;
        const N: usize = 53;
        assert!(<S5_4<()> as FixedSize>::SIZE == N && SIZE_S5_4 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S5_4::new(&b[..]);
        {
            let raw = field::<true>(&b[0..7], 5, 45);
            assert!(s.get_raw_f45() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 19) as i64) >> 19;
            assert!(s.get_f45() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_4::new(&mut c[..]); m.set_f45(v); }
            assert!(updated::<true>(&b[0..7], &c[0..7], 5, 45, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_4::new(&mut c[..]); m.set_raw_f45(r); }
            assert!(updated::<true>(&b[0..7], &c[0..7], 5, 45, r as u64) && others(&b, &c, 0, 7), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 44 && v as i64 <= (1u64 << 44) as i64 - 1 || 45 == 64 {
                let mut c = b;
                { let mut m = S5_4::new(&mut c[..]); m.set_f45(v); }
                assert!(S5_4::new(&c[..]).get_f45() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[6..13], 5, 46);
            assert!(s.get_raw_f46() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 18) as i64) >> 18;
            assert!(s.get_f46() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_4::new(&mut c[..]); m.set_f46(v); }
            assert!(updated::<true>(&b[6..13], &c[6..13], 5, 46, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_4::new(&mut c[..]); m.set_raw_f46(r); }
            assert!(updated::<true>(&b[6..13], &c[6..13], 5, 46, r as u64) && others(&b, &c, 6, 13), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 45 && v as i64 <= (1u64 << 45) as i64 - 1 || 46 == 64 {
                let mut c = b;
                { let mut m = S5_4::new(&mut c[..]); m.set_f46(v); }
                assert!(S5_4::new(&c[..]).get_f46() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[12..19], 5, 47);
            assert!(s.get_raw_f47() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 17) as i64) >> 17;
            assert!(s.get_f47() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_4::new(&mut c[..]); m.set_f47(v); }
            assert!(updated::<true>(&b[12..19], &c[12..19], 5, 47, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_4::new(&mut c[..]); m.set_raw_f47(r); }
            assert!(updated::<true>(&b[12..19], &c[12..19], 5, 47, r as u64) && others(&b, &c, 12, 19), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 46 && v as i64 <= (1u64 << 46) as i64 - 1 || 47 == 64 {
                let mut c = b;
                { let mut m = S5_4::new(&mut c[..]); m.set_f47(v); }
                assert!(S5_4::new(&c[..]).get_f47() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[18..25], 5, 48);
            assert!(s.get_raw_f48() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 16) as i64) >> 16;
            assert!(s.get_f48() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_4::new(&mut c[..]); m.set_f48(v); }
            assert!(updated::<true>(&b[18..25], &c[18..25], 5, 48, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 18, 25), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_4::new(&mut c[..]); m.set_raw_f48(r); }
            assert!(updated::<true>(&b[18..25], &c[18..25], 5, 48, r as u64) && others(&b, &c, 18, 25), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 47 && v as i64 <= (1u64 << 47) as i64 - 1 || 48 == 64 {
                let mut c = b;
                { let mut m = S5_4::new(&mut c[..]); m.set_f48(v); }
                assert!(S5_4::new(&c[..]).get_f48() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[24..31], 5, 49);
            assert!(s.get_raw_f49() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 15) as i64) >> 15;
            assert!(s.get_f49() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_4::new(&mut c[..]); m.set_f49(v); }
            assert!(updated::<true>(&b[24..31], &c[24..31], 5, 49, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 24, 31), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_4::new(&mut c[..]); m.set_raw_f49(r); }
            assert!(updated::<true>(&b[24..31], &c[24..31], 5, 49, r as u64) && others(&b, &c, 24, 31), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 48 && v as i64 <= (1u64 << 48) as i64 - 1 || 49 == 64 {
                let mut c = b;
                { let mut m = S5_4::new(&mut c[..]); m.set_f49(v); }
                assert!(S5_4::new(&c[..]).get_f49() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[31..38], 5, 50);
            assert!(s.get_raw_f50() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 14) as i64) >> 14;
            assert!(s.get_f50() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_4::new(&mut c[..]); m.set_f50(v); }
            assert!(updated::<true>(&b[31..38], &c[31..38], 5, 50, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 31, 38), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_4::new(&mut c[..]); m.set_raw_f50(r); }
            assert!(updated::<true>(&b[31..38], &c[31..38], 5, 50, r as u64) && others(&b, &c, 31, 38), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 49 && v as i64 <= (1u64 << 49) as i64 - 1 || 50 == 64 {
                let mut c = b;
                { let mut m = S5_4::new(&mut c[..]); m.set_f50(v); }
                assert!(S5_4::new(&c[..]).get_f50() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[38..45], 5, 51);
            assert!(s.get_raw_f51() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 13) as i64) >> 13;
            assert!(s.get_f51() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_4::new(&mut c[..]); m.set_f51(v); }
            assert!(updated::<true>(&b[38..45], &c[38..45], 5, 51, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 38, 45), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_4::new(&mut c[..]); m.set_raw_f51(r); }
            assert!(updated::<true>(&b[38..45], &c[38..45], 5, 51, r as u64) && others(&b, &c, 38, 45), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 50 && v as i64 <= (1u64 << 50) as i64 - 1 || 51 == 64 {
                let mut c = b;
                { let mut m = S5_4::new(&mut c[..]); m.set_f51(v); }
                assert!(S5_4::new(&c[..]).get_f51() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[45..53], 5, 52);
            assert!(s.get_raw_f52() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 12) as i64) >> 12;
            assert!(s.get_f52() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_4::new(&mut c[..]); m.set_f52(v); }
            assert!(updated::<true>(&b[45..53], &c[45..53], 5, 52, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 45, 53), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_4::new(&mut c[..]); m.set_raw_f52(r); }
            assert!(updated::<true>(&b[45..53], &c[45..53], 5, 52, r as u64) && others(&b, &c, 45, 53), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 51 && v as i64 <= (1u64 << 51) as i64 - 1 || 52 == 64 {
                let mut c = b;
                { let mut m = S5_4::new(&mut c[..]); m.set_f52(v); }
                assert!(S5_4::new(&c[..]).get_f52() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o5_g5() {
        use crate::ibet::*;
        const N: usize = 62;
        assert!(<S5_5<()> as FixedSize>::SIZE == N && SIZE_S5_5 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S5_5::new(&b[..]);
        {
            let raw = field::<true>(&b[0..8], 5, 53);
            assert!(s.get_raw_f53() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 11) as i64) >> 11;
            assert!(s.get_f53() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_5::new(&mut c[..]); m.set_f53(v); }
            assert!(updated::<true>(&b[0..8], &c[0..8], 5, 53, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_5::new(&mut c[..]); m.set_raw_f53(r); }
            assert!(updated::<true>(&b[0..8], &c[0..8], 5, 53, r as u64) && others(&b, &c, 0, 8), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 52 && v as i64 <= (1u64 << 52) as i64 - 1 || 53 == 64 {
                let mut c = b;
                { let mut m = S5_5::new(&mut c[..]); m.set_f53(v); }
                assert!(S5_5::new(&c[..]).get_f53() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[7..15], 5, 54);
            assert!(s.get_raw_f54() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 10) as i64) >> 10;
            assert!(s.get_f54() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_5::new(&mut c[..]); m.set_f54(v); }
            assert!(updated::<true>(&b[7..15], &c[7..15], 5, 54, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 15), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_5::new(&mut c[..]); m.set_raw_f54(r); }
            assert!(updated::<true>(&b[7..15], &c[7..15], 5, 54, r as u64) && others(&b, &c, 7, 15), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 53 && v as i64 <= (1u64 << 53) as i64 - 1 || 54 == 64 {
                let mut c = b;
                { let mut m = S5_5::new(&mut c[..]); m.set_f54(v); }
                assert!(S5_5::new(&c[..]).get_f54() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[14..22], 5, 55);
            assert!(s.get_raw_f55() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 9) as i64) >> 9;
            assert!(s.get_f55() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_5::new(&mut c[..]); m.set_f55(v); }
            assert!(updated::<true>(&b[14..22], &c[14..22], 5, 55, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 14, 22), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_5::new(&mut c[..]); m.set_raw_f55(r); }
            assert!(updated::<true>(&b[14..22], &c[14..22], 5, 55, r as u64) && others(&b, &c, 14, 22), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 54 && v as i64 <= (1u64 << 54) as i64 - 1 || 55 == 64 {
                let mut c = b;
                { let mut m = S5_5::new(&mut c[..]); m.set_f55(v); }
                assert!(S5_5::new(&c[..]).get_f55() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[21..29], 5, 58);
            assert!(s.get_raw_f58() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 6) as i64) >> 6;
            assert!(s.get_f58() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_5::new(&mut c[..]); m.set_f58(v); }
            assert!(updated::<true>(&b[21..29], &c[21..29], 5, 58, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 21, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_5::new(&mut c[..]); m.set_raw_f58(r); }
            assert!(updated::<true>(&b[21..29], &c[21..29], 5, 58, r as u64) && others(&b, &c, 21, 29), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 57 && v as i64 <= (1u64 << 57) as i64 - 1 || 58 == 64 {
                let mut c = b;
                { let mut m = S5_5::new(&mut c[..]); m.set_f58(v); }
                assert!(S5_5::new(&c[..]).get_f58() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[29..37], 5, 59);
            assert!(s.get_raw_f59() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 5) as i64) >> 5;
            assert!(s.get_f59() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_5::new(&mut c[..]); m.set_f59(v); }
            assert!(updated::<true>(&b[29..37], &c[29..37], 5, 59, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 29, 37), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_5::new(&mut c[..]); m.set_raw_f59(r); }
            assert!(updated::<true>(&b[29..37], &c[29..37], 5, 59, r as u64) && others(&b, &c, 29, 37), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 58 && v as i64 <= (1u64 << 58) as i64 - 1 || 59 == 64 {
                let mut c = b;
                { let mut m = S5_5::new(&mut c[..]); m.set_f59(v); }
                assert!(S5_5::new(&c[..]).get_f59() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[37..46], 5, 60);
            assert!(s.get_raw_f60() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 4) as i64) >> 4;
            assert!(s.get_f60() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_5::new(&mut c[..]); m.set_f60(v); }
            assert!(updated::<true>(&b[37..46], &c[37..46], 5, 60, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 37, 46), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_5::new(&mut c[..]); m.set_raw_f60(r); }
            assert!(updated::<true>(&b[37..46], &c[37..46], 5, 60, r as u64) && others(&b, &c, 37, 46), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 59 && v as i64 <= (1u64 << 59) as i64 - 1 || 60 == 64 {
                let mut c = b;
                { let mut m = S5_5::new(&mut c[..]); m.set_f60(v); }
                assert!(S5_5::new(&c[..]).get_f60() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[45..54], 5, 61);
            assert!(s.get_raw_f61() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 3) as i64) >> 3;
            assert!(s.get_f61() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_5::new(&mut c[..]); m.set_f61(v); }
            assert!(updated::<true>(&b[45..54], &c[45..54], 5, 61, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 45, 54), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_5::new(&mut c[..]); m.set_raw_f61(r); }
            assert!(updated::<true>(&b[45..54], &c[45..54], 5, 61, r as u64) && others(&b, &c, 45, 54), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 60 && v as i64 <= (1u64 << 60) as i64 - 1 || 61 == 64 {
                let mut c = b;
                { let mut m = S5_5::new(&mut c[..]); m.set_f61(v); }
                assert!(S5_5::new(&c[..]).get_f61() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[53..62], 5, 62);
            assert!(s.get_raw_f62() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 2) as i64) >> 2;
            assert!(s.get_f62() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S5_5::new(&mut c[..]); m.set_f62(v); }
            assert!(updated::<true>(&b[53..62], &c[53..62], 5, 62, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 53, 62), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S5_5::new(&mut c[..]); m.set_raw_f62(r); }
            assert!(updated::<true>(&b[53..62], &c[53..62], 5, 62, r as u64) && others(&b, &c, 53, 62), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 61 && v as i64 <= (1u64 << 61) as i64 - 1 || 62 == 64 {
                let mut c = b;
                { let mut m = S5_5::new(&mut c[..]); m.set_f62(v); }
                assert!(S5_5::new(&c[..]).get_f62() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o6_g0() {
        use crate::ibet::*;
        const N: usize = 13;
        assert!(<S6_0<()> as FixedSize>::SIZE == N && SIZE_S6_0 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S6_0::new(&b[..]);
        {
            let raw = field::<true>(&b[0..1], 6, 2);
            assert!(s.get_raw_f2() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 62) as i64) >> 62;
            assert!(s.get_f2() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_0::new(&mut c[..]); m.set_f2(v); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 6, 2, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_0::new(&mut c[..]); m.set_raw_f2(r); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 6, 2, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 1 && v as i64 <= (1u64 << 1) as i64 - 1 || 2 == 64 {
                let mut c = b;
                { let mut m = S6_0::new(&mut c[..]); m.set_f2(v); }
                assert!(S6_0::new(&c[..]).get_f2() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[1..3], 6, 4);
            assert!(s.get_raw_f4() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 60) as i64) >> 60;
            assert!(s.get_f4() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_0::new(&mut c[..]); m.set_f4(v); }
            assert!(updated::<true>(&b[1..3], &c[1..3], 6, 4, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_0::new(&mut c[..]); m.set_raw_f4(r); }
            assert!(updated::<true>(&b[1..3], &c[1..3], 6, 4, r as u64) && others(&b, &c, 1, 3), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 3 && v as i64 <= (1u64 << 3) as i64 - 1 || 4 == 64 {
                let mut c = b;
                { let mut m = S6_0::new(&mut c[..]); m.set_f4(v); }
                assert!(S6_0::new(&c[..]).get_f4() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[2..4], 6, 5);
            assert!(s.get_raw_f5() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 59) as i64) >> 59;
            assert!(s.get_f5() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_0::new(&mut c[..]); m.set_f5(v); }
            assert!(updated::<true>(&b[2..4], &c[2..4], 6, 5, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_0::new(&mut c[..]); m.set_raw_f5(r); }
            assert!(updated::<true>(&b[2..4], &c[2..4], 6, 5, r as u64) && others(&b, &c, 2, 4), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 4 && v as i64 <= (1u64 << 4) as i64 - 1 || 5 == 64 {
                let mut c = b;
                { let mut m = S6_0::new(&mut c[..]); m.set_f5(v); }
                assert!(S6_0::new(&c[..]).get_f5() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[3..5], 6, 6);
            assert!(s.get_raw_f6() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 58) as i64) >> 58;
            assert!(s.get_f6() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_0::new(&mut c[..]); m.set_f6(v); }
            assert!(updated::<true>(&b[3..5], &c[3..5], 6, 6, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_0::new(&mut c[..]); m.set_raw_f6(r); }
            assert!(updated::<true>(&b[3..5], &c[3..5], 6, 6, r as u64) && others(&b, &c, 3, 5), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 5 && v as i64 <= (1u64 << 5) as i64 - 1 || 6 == 64 {
                let mut c = b;
                { let mut m = S6_0::new(&mut c[..]); m.set_f6(v); }
                assert!(S6_0::new(&c[..]).get_f6() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[4..6], 6, 10);
            assert!(s.get_raw_f10() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 54) as i64) >> 54;
            assert!(s.get_f10() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_0::new(&mut c[..]); m.set_f10(v); }
            assert!(updated::<true>(&b[4..6], &c[4..6], 6, 10, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_0::new(&mut c[..]); m.set_raw_f10(r); }
            assert!(updated::<true>(&b[4..6], &c[4..6], 6, 10, r as u64) && others(&b, &c, 4, 6), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 9 && v as i64 <= (1u64 << 9) as i64 - 1 || 10 == 64 {
                let mut c = b;
                { let mut m = S6_0::new(&mut c[..]); m.set_f10(v); }
                assert!(S6_0::new(&c[..]).get_f10() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[6..9], 6, 11);
            assert!(s.get_raw_f11() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 53) as i64) >> 53;
            assert!(s.get_f11() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_0::new(&mut c[..]); m.set_f11(v); }
            assert!(updated::<true>(&b[6..9], &c[6..9], 6, 11, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 9), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_0::new(&mut c[..]); m.set_raw_f11(r); }
            assert!(updated::<true>(&b[6..9], &c[6..9], 6, 11, r as u64) && others(&b, &c, 6, 9), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 10 && v as i64 <= (1u64 << 10) as i64 - 1 || 11 == 64 {
                let mut c = b;
                { let mut m = S6_0::new(&mut c[..]); m.set_f11(v); }
                assert!(S6_0::new(&c[..]).get_f11() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[8..11], 6, 12);
            assert!(s.get_raw_f12() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 52) as i64) >> 52;
            assert!(s.get_f12() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_0::new(&mut c[..]); m.set_f12(v); }
            assert!(updated::<true>(&b[8..11], &c[8..11], 6, 12, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 8, 11), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_0::new(&mut c[..]); m.set_raw_f12(r); }
            assert!(updated::<true>(&b[8..11], &c[8..11], 6, 12, r as u64) && others(&b, &c, 8, 11), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 11 && v as i64 <= (1u64 << 11) as i64 - 1 || 12 == 64 {
                let mut c = b;
                { let mut m = S6_0::new(&mut c[..]); m.set_f12(v); }
                assert!(S6_0::new(&c[..]).get_f12() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[10..13], 6, 13);
            assert!(s.get_raw_f13() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 51) as i64) >> 51;
            assert!(s.get_f13() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_0::new(&mut c[..]); m.set_f13(v); }
            assert!(updated::<true>(&b[10..13], &c[10..13], 6, 13, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_0::new(&mut c[..]); m.set_raw_f13(r); }
            assert!(updated::<true>(&b[10..13], &c[10..13], 6, 13, r as u64) && others(&b, &c, 10, 13), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 12 && v as i64 <= (1u64 << 12) as i64 - 1 || 13 == 64 {
                let mut c = b;
                { let mut m = S6_0::new(&mut c[..]); m.set_f13(v); }
                assert!(S6_0::new(&c[..]).get_f13() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o6_g1() {
        use crate::ibet::*;
        const N: usize = 23;
        assert!(<S6_1<()> as FixedSize>::SIZE == N && SIZE_S6_1 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S6_1::new(&b[..]);
        {
            let raw = field::<true>(&b[0..3], 6, 14);
            assert!(s.get_raw_f14() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 50) as i64) >> 50;
            assert!(s.get_f14() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_1::new(&mut c[..]); m.set_f14(v); }
            assert!(updated::<true>(&b[0..3], &c[0..3], 6, 14, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_1::new(&mut c[..]); m.set_raw_f14(r); }
            assert!(updated::<true>(&b[0..3], &c[0..3], 6, 14, r as u64) && others(&b, &c, 0, 3), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 13 && v as i64 <= (1u64 << 13) as i64 - 1 || 14 == 64 {
                let mut c = b;
                { let mut m = S6_1::new(&mut c[..]); m.set_f14(v); }
                assert!(S6_1::new(&c[..]).get_f14() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[2..5], 6, 15);
            assert!(s.get_raw_f15() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 49) as i64) >> 49;
            assert!(s.get_f15() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_1::new(&mut c[..]); m.set_f15(v); }
            assert!(updated::<true>(&b[2..5], &c[2..5], 6, 15, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_1::new(&mut c[..]); m.set_raw_f15(r); }
            assert!(updated::<true>(&b[2..5], &c[2..5], 6, 15, r as u64) && others(&b, &c, 2, 5), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 14 && v as i64 <= (1u64 << 14) as i64 - 1 || 15 == 64 {
                let mut c = b;
                { let mut m = S6_1::new(&mut c[..]); m.set_f15(v); }
                assert!(S6_1::new(&c[..]).get_f15() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[4..7], 6, 18);
            assert!(s.get_raw_f18() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 46) as i64) >> 46;
            assert!(s.get_f18() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_1::new(&mut c[..]); m.set_f18(v); }
            assert!(updated::<true>(&b[4..7], &c[4..7], 6, 18, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_1::new(&mut c[..]); m.set_raw_f18(r); }
            assert!(updated::<true>(&b[4..7], &c[4..7], 6, 18, r as u64) && others(&b, &c, 4, 7), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 17 && v as i64 <= (1u64 << 17) as i64 - 1 || 18 == 64 {
                let mut c = b;
                { let mut m = S6_1::new(&mut c[..]); m.set_f18(v); }
                assert!(S6_1::new(&c[..]).get_f18() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[7..11], 6, 19);
            assert!(s.get_raw_f19() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 45) as i64) >> 45;
            assert!(s.get_f19() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_1::new(&mut c[..]); m.set_f19(v); }
            assert!(updated::<true>(&b[7..11], &c[7..11], 6, 19, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 11), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_1::new(&mut c[..]); m.set_raw_f19(r); }
            assert!(updated::<true>(&b[7..11], &c[7..11], 6, 19, r as u64) && others(&b, &c, 7, 11), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 18 && v as i64 <= (1u64 << 18) as i64 - 1 || 19 == 64 {
                let mut c = b;
                { let mut m = S6_1::new(&mut c[..]); m.set_f19(v); }
                assert!(S6_1::new(&c[..]).get_f19() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[10..14], 6, 20);
            assert!(s.get_raw_f20() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 44) as i64) >> 44;
            assert!(s.get_f20() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_1::new(&mut c[..]); m.set_f20(v); }
            assert!(updated::<true>(&b[10..14], &c[10..14], 6, 20, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 14), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_1::new(&mut c[..]); m.set_raw_f20(r); }
            assert!(updated::<true>(&b[10..14], &c[10..14], 6, 20, r as u64) && others(&b, &c, 10, 14), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 19 && v as i64 <= (1u64 << 19) as i64 - 1 || 20 == 64 {
                let mut c = b;
                { let mut m = S6_1::new(&mut c[..]); m.set_f20(v); }
                assert!(S6_1::new(&c[..]).get_f20() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[13..17], 6, 21);
            assert!(s.get_raw_f21() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 43) as i64) >> 43;
            assert!(s.get_f21() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_1::new(&mut c[..]); m.set_f21(v); }
            assert!(updated::<true>(&b[13..17], &c[13..17], 6, 21, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 13, 17), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_1::new(&mut c[..]); m.set_raw_f21(r); }
            assert!(updated::<true>(&b[13..17], &c[13..17], 6, 21, r as u64) && others(&b, &c, 13, 17), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 20 && v as i64 <= (1u64 << 20) as i64 - 1 || 21 == 64 {
                let mut c = b;
                { let mut m = S6_1::new(&mut c[..]); m.set_f21(v); }
                assert!(S6_1::new(&c[..]).get_f21() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[16..20], 6, 22);
            assert!(s.get_raw_f22() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 42) as i64) >> 42;
            assert!(s.get_f22() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_1::new(&mut c[..]); m.set_f22(v); }
            assert!(updated::<true>(&b[16..20], &c[16..20], 6, 22, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_1::new(&mut c[..]); m.set_raw_f22(r); }
            assert!(updated::<true>(&b[16..20], &c[16..20], 6, 22, r as u64) && others(&b, &c, 16, 20), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 21 && v as i64 <= (1u64 << 21) as i64 - 1 || 22 == 64 {
                let mut c = b;
                { let mut m = S6_1::new(&mut c[..]); m.set_f22(v); }
                assert!(S6_1::new(&c[..]).get_f22() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[19..23], 6, 23);
            assert!(s.get_raw_f23() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 41) as i64) >> 41;
            assert!(s.get_f23() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_1::new(&mut c[..]); m.set_f23(v); }
            assert!(updated::<true>(&b[19..23], &c[19..23], 6, 23, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 19, 23), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_1::new(&mut c[..]); m.set_raw_f23(r); }
            assert!(updated::<true>(&b[19..23], &c[19..23], 6, 23, r as u64) && others(&b, &c, 19, 23), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 22 && v as i64 <= (1u64 << 22) as i64 - 1 || 23 == 64 {
                let mut c = b;
                { let mut m = S6_1::new(&mut c[..]); m.set_f23(v); }
                assert!(S6_1::new(&c[..]).get_f23() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o6_g2() {
        use crate::ibet::*;
        const N: usize = 35;
        assert!(<S6_2<()> as FixedSize>::SIZE == N && SIZE_S6_2 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S6_2::new(&b[..]);
        {
            let raw = field::<true>(&b[0..4], 6, 26);
            assert!(s.get_raw_f26() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 38) as i64) >> 38;
            assert!(s.get_f26() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_2::new(&mut c[..]); m.set_f26(v); }
            assert!(updated::<true>(&b[0..4], &c[0..4], 6, 26, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_2::new(&mut c[..]); m.set_raw_f26(r); }
            assert!(updated::<true>(&b[0..4], &c[0..4], 6, 26, r as u64) && others(&b, &c, 0, 4), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 25 && v as i64 <= (1u64 << 25) as i64 - 1 || 26 == 64 {
                let mut c = b;
                { let mut m = S6_2::new(&mut c[..]); m.set_f26(v); }
                assert!(S6_2::new(&c[..]).get_f26() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[4..9], 6, 27);
            assert!(s.get_raw_f27() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 37) as i64) >> 37;
            assert!(s.get_f27() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_2::new(&mut c[..]); m.set_f27(v); }
            assert!(updated::<true>(&b[4..9], &c[4..9], 6, 27, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 9), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_2::new(&mut c[..]); m.set_raw_f27(r); }
            assert!(updated::<true>(&b[4..9], &c[4..9], 6, 27, r as u64) && others(&b, &c, 4, 9), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 26 && v as i64 <= (1u64 << 26) as i64 - 1 || 27 == 64 {
                let mut c = b;
                { let mut m = S6_2::new(&mut c[..]); m.set_f27(v); }
                assert!(S6_2::new(&c[..]).get_f27() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[8..13], 6, 28);
            assert!(s.get_raw_f28() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 36) as i64) >> 36;
            assert!(s.get_f28() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_2::new(&mut c[..]); m.set_f28(v); }
            assert!(updated::<true>(&b[8..13], &c[8..13], 6, 28, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 8, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_2::new(&mut c[..]); m.set_raw_f28(r); }
            assert!(updated::<true>(&b[8..13], &c[8..13], 6, 28, r as u64) && others(&b, &c, 8, 13), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 27 && v as i64 <= (1u64 << 27) as i64 - 1 || 28 == 64 {
                let mut c = b;
                { let mut m = S6_2::new(&mut c[..]); m.set_f28(v); }
                assert!(S6_2::new(&c[..]).get_f28() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[12..17], 6, 29);
            assert!(s.get_raw_f29() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 35) as i64) >> 35;
            assert!(s.get_f29() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_2::new(&mut c[..]); m.set_f29(v); }
            assert!(updated::<true>(&b[12..17], &c[12..17], 6, 29, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 17), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_2::new(&mut c[..]); m.set_raw_f29(r); }
            assert!(updated::<true>(&b[12..17], &c[12..17], 6, 29, r as u64) && others(&b, &c, 12, 17), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 28 && v as i64 <= (1u64 << 28) as i64 - 1 || 29 == 64 {
                let mut c = b;
                { let mut m = S6_2::new(&mut c[..]); m.set_f29(v); }
                assert!(S6_2::new(&c[..]).get_f29() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[16..21], 6, 30);
            assert!(s.get_raw_f30() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 34) as i64) >> 34;
            assert!(s.get_f30() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_2::new(&mut c[..]); m.set_f30(v); }
            assert!(updated::<true>(&b[16..21], &c[16..21], 6, 30, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 21), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_2::new(&mut c[..]); m.set_raw_f30(r); }
            assert!(updated::<true>(&b[16..21], &c[16..21], 6, 30, r as u64) && others(&b, &c, 16, 21), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 29 && v as i64 <= (1u64 << 29) as i64 - 1 || 30 == 64 {
                let mut c = b;
                { let mut m = S6_2::new(&mut c[..]); m.set_f30(v); }
                assert!(S6_2::new(&c[..]).get_f30() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[20..25], 6, 31);
            assert!(s.get_raw_f31() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 33) as i64) >> 33;
            assert!(s.get_f31() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_2::new(&mut c[..]); m.set_f31(v); }
            assert!(updated::<true>(&b[20..25], &c[20..25], 6, 31, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 25), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_2::new(&mut c[..]); m.set_raw_f31(r); }
            assert!(updated::<true>(&b[20..25], &c[20..25], 6, 31, r as u64) && others(&b, &c, 20, 25), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 30 && v as i64 <= (1u64 << 30) as i64 - 1 || 31 == 64 {
                let mut c = b;
                { let mut m = S6_2::new(&mut c[..]); m.set_f31(v); }
                assert!(S6_2::new(&c[..]).get_f31() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[24..29], 6, 34);
            assert!(s.get_raw_f34() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 30) as i64) >> 30;
            assert!(s.get_f34() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_2::new(&mut c[..]); m.set_f34(v); }
            assert!(updated::<true>(&b[24..29], &c[24..29], 6, 34, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 24, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_2::new(&mut c[..]); m.set_raw_f34(r); }
            assert!(updated::<true>(&b[24..29], &c[24..29], 6, 34, r as u64) && others(&b, &c, 24, 29), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 33 && v as i64 <= (1u64 << 33) as i64 - 1 || 34 == 64 {
                let mut c = b;
                { let mut m = S6_2::new(&mut c[..]); m.set_f34(v); }
                assert!(S6_2::new(&c[..]).get_f34() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[29..35], 6, 35);
            assert!(s.get_raw_f35() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 29) as i64) >> 29;
            assert!(s.get_f35() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_2::new(&mut c[..]); m.set_f35(v); }
            assert!(updated::<true>(&b[29..35], &c[29..35], 6, 35, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 29, 35), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_2::new(&mut c[..]); m.set_raw_f35(r); }
            assert!(updated::<true>(&b[29..35], &c[29..35], 6, 35, r as u64) && others(&b, &c, 29, 35), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 34 && v as i64 <= (1u64 << 34) as i64 - 1 || 35 == 64 {
                let mut c = b;
                { let mut m = S6_2::new(&mut c[..]); m.set_f35(v); }
                assert!(S6_2::new(&c[..]).get_f35() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o6_g3() {
        use crate::ibet::*;
        const N: usize = 45;
        assert!(<S6_3<()> as FixedSize>::SIZE == N && SIZE_S6_3 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S6_3::new(&b[..]);
        {
            let raw = field::<true>(&b[0..6], 6, 36);
            assert!(s.get_raw_f36() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 28) as i64) >> 28;
            assert!(s.get_f36() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_3::new(&mut c[..]); m.set_f36(v); }
            assert!(updated::<true>(&b[0..6], &c[0..6], 6, 36, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_3::new(&mut c[..]); m.set_raw_f36(r); }
            assert!(updated::<true>(&b[0..6], &c[0..6], 6, 36, r as u64) && others(&b, &c, 0, 6), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 35 && v as i64 <= (1u64 << 35) as i64 - 1 || 36 == 64 {
                let mut c = b;
                { let mut m = S6_3::new(&mut c[..]); m.set_f36(v); }
                assert!(S6_3::new(&c[..]).get_f36() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[5..11], 6, 37);
            assert!(s.get_raw_f37() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 27) as i64) >> 27;
            assert!(s.get_f37() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_3::new(&mut c[..]); m.set_f37(v); }
            assert!(updated::<true>(&b[5..11], &c[5..11], 6, 37, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 11), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_3::new(&mut c[..]); m.set_raw_f37(r); }
            assert!(updated::<true>(&b[5..11], &c[5..11], 6, 37, r as u64) && others(&b, &c, 5, 11), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 36 && v as i64 <= (1u64 << 36) as i64 - 1 || 37 == 64 {
                let mut c = b;
                { let mut m = S6_3::new(&mut c[..]); m.set_f37(v); }
                assert!(S6_3::new(&c[..]).get_f37() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[10..16], 6, 38);
            assert!(s.get_raw_f38() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 26) as i64) >> 26;
            assert!(s.get_f38() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_3::new(&mut c[..]); m.set_f38(v); }
            assert!(updated::<true>(&b[10..16], &c[10..16], 6, 38, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 16), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_3::new(&mut c[..]); m.set_raw_f38(r); }
            assert!(updated::<true>(&b[10..16], &c[10..16], 6, 38, r as u64) && others(&b, &c, 10, 16), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 37 && v as i64 <= (1u64 << 37) as i64 - 1 || 38 == 64 {
                let mut c = b;
                { let mut m = S6_3::new(&mut c[..]); m.set_f38(v); }
                assert!(S6_3::new(&c[..]).get_f38() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[15..21], 6, 39);
            assert!(s.get_raw_f39() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 25) as i64) >> 25;
            assert!(s.get_f39() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_3::new(&mut c[..]); m.set_f39(v); }
            assert!(updated::<true>(&b[15..21], &c[15..21], 6, 39, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 15, 21), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_3::new(&mut c[..]); m.set_raw_f39(r); }
            assert!(updated::<true>(&b[15..21], &c[15..21], 6, 39, r as u64) && others(&b, &c, 15, 21), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 38 && v as i64 <= (1u64 << 38) as i64 - 1 || 39 == 64 {
                let mut c = b;
                { let mut m = S6_3::new(&mut c[..]); m.set_f39(v); }
                assert!(S6_3::new(&c[..]).get_f39() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[20..26], 6, 41);
            assert!(s.get_raw_f41() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 23) as i64) >> 23;
            assert!(s.get_f41() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_3::new(&mut c[..]); m.set_f41(v); }
            assert!(updated::<true>(&b[20..26], &c[20..26], 6, 41, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 26), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_3::new(&mut c[..]); m.set_raw_f41(r); }
            assert!(updated::<true>(&b[20..26], &c[20..26], 6, 41, r as u64) && others(&b, &c, 20, 26), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 40 && v as i64 <= (1u64 << 40) as i64 - 1 || 41 == 64 {
                let mut c = b;
                { let mut m = S6_3::new(&mut c[..]); m.set_f41(v); }
                assert!(S6_3::new(&c[..]).get_f41() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[26..32], 6, 42);
            assert!(s.get_raw_f42() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 22) as i64) >> 22;
            assert!(s.get_f42() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_3::new(&mut c[..]); m.set_f42(v); }
            assert!(updated::<true>(&b[26..32], &c[26..32], 6, 42, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 26, 32), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_3::new(&mut c[..]); m.set_raw_f42(r); }
            assert!(updated::<true>(&b[26..32], &c[26..32], 6, 42, r as u64) && others(&b, &c, 26, 32), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 41 && v as i64 <= (1u64 << 41) as i64 - 1 || 42 == 64 {
                let mut c = b;
                { let mut m = S6_3::new(&mut c[..]); m.set_f42(v); }
                assert!(S6_3::new(&c[..]).get_f42() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[32..39], 6, 43);
            assert!(s.get_raw_f43() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 21) as i64) >> 21;
            assert!(s.get_f43() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_3::new(&mut c[..]); m.set_f43(v); }
            assert!(updated::<true>(&b[32..39], &c[32..39], 6, 43, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 32, 39), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_3::new(&mut c[..]); m.set_raw_f43(r); }
            assert!(updated::<true>(&b[32..39], &c[32..39], 6, 43, r as u64) && others(&b, &c, 32, 39), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 42 && v as i64 <= (1u64 << 42) as i64 - 1 || 43 == 64 {
                let mut c = b;
                { let mut m = S6_3::new(&mut c[..]); m.set_f43(v); }
                assert!(S6_3::new(&c[..]).get_f43() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[38..45], 6, 44);
            assert!(s.get_raw_f44() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 20) as i64) >> 20;
            assert!(s.get_f44() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_3::new(&mut c[..]); m.set_f44(v); }
            assert!(updated::<true>(&b[38..45], &c[38..45], 6, 44, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 38, 45), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_3::new(&mut c[..]); m.set_raw_f44(r); }
            assert!(updated::<true>(&b[38..45], &c[38..45], 6, 44, r as u64) && others(&b, &c, 38, 45), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 43 && v as i64 <= (1u64 << 43) as i64 - 1 || 44 == 64 {
                let mut c = b;
                { let mut m = S6_3::new(&mut c[..]); m.set_f44(v); }
                assert!(S6_3::new(&c[..]).get_f44() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o6_g4() {
        use crate::ibet::*;
        const N: usize = 53;
        assert!(<S6_4<()> as FixedSize>::SIZE == N && SIZE_S6_4 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S6_4::new(&b[..]);
        {
            let raw = field::<true>(&b[0..7], 6, 45);
            assert!(s.get_raw_f45() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 19) as i64) >> 19;
            assert!(s.get_f45() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_4::new(&mut c[..]); m.set_f45(v); }
            assert!(updated::<true>(&b[0..7], &c[0..7], 6, 45, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_4::new(&mut c[..]); m.set_raw_f45(r); }
            assert!(updated::<true>(&b[0..7], &c[0..7], 6, 45, r as u64) && others(&b, &c, 0, 7), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 44 && v as i64 <= (1u64 << 44) as i64 - 1 || 45 == 64 {
                let mut c = b;
                { let mut m = S6_4::new(&mut c[..]); m.set_f45(v); }
                assert!(S6_4::new(&c[..]).get_f45() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[6..13], 6, 46);
            assert!(s.get_raw_f46() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 18) as i64) >> 18;
            assert!(s.get_f46() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_4::new(&mut c[..]); m.set_f46(v); }
            assert!(updated::<true>(&b[6..13], &c[6..13], 6, 46, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_4::new(&mut c[..]); m.set_raw_f46(r); }
            assert!(updated::<true>(&b[6..13], &c[6..13], 6, 46, r as u64) && others(&b, &c, 6, 13), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 45 && v as i64 <= (1u64 << 45) as i64 - 1 || 46 == 64 {
                let mut c = b;
                { let mut m = S6_4::new(&mut c[..]); m.set_f46(v); }
                assert!(S6_4::new(&c[..]).get_f46() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[12..19], 6, 47);
            assert!(s.get_raw_f47() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 17) as i64) >> 17;
            assert!(s.get_f47() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_4::new(&mut c[..]); m.set_f47(v); }
            assert!(updated::<true>(&b[12..19], &c[12..19], 6, 47, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_4::new(&mut c[..]); m.set_raw_f47(r); }
            assert!(updated::<true>(&b[12..19], &c[12..19], 6, 47, r as u64) && others(&b, &c, 12, 19), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 46 && v as i64 <= (1u64 << 46) as i64 - 1 || 47 == 64 {
                let mut c = b;
                { let mut m = S6_4::new(&mut c[..]); m.set_f47(v); }
                assert!(S6_4::new(&c[..]).get_f47() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[18..25], 6, 48);
            assert!(s.get_raw_f48() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 16) as i64) >> 16;
            assert!(s.get_f48() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_4::new(&mut c[..]); m.set_f48(v); }
            assert!(updated::<true>(&b[18..25], &c[18..25], 6, 48, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 18, 25), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_4::new(&mut c[..]); m.set_raw_f48(r); }
            assert!(updated::<true>(&b[18..25], &c[18..25], 6, 48, r as u64) && others(&b, &c, 18, 25), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 47 && v as i64 <= (1u64 << 47) as i64 - 1 || 48 == 64 {
                let mut c = b;
                { let mut m = S6_4::new(&mut c[..]); m.set_f48(v); }
                assert!(S6_4::new(&c[..]).get_f48() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[24..31], 6, 49);
            assert!(s.get_raw_f49() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 15) as i64) >> 15;
            assert!(s.get_f49() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_4::new(&mut c[..]); m.set_f49(v); }
            assert!(updated::<true>(&b[24..31], &c[24..31], 6, 49, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 24, 31), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_4::new(&mut c[..]); m.set_raw_f49(r); }
            assert!(updated::<true>(&b[24..31], &c[24..31], 6, 49, r as u64) && others(&b, &c, 24, 31), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 48 && v as i64 <= (1u64 << 48) as i64 - 1 || 49 == 64 {
                let mut c = b;
                { let mut m = S6_4::new(&mut c[..]); m.set_f49(v); }
                assert!(S6_4::new(&c[..]).get_f49() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[31..38], 6, 50);
            assert!(s.get_raw_f50() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 14) as i64) >> 14;
            assert!(s.get_f50() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_4::new(&mut c[..]); m.set_f50(v); }
            assert!(updated::<true>(&b[31..38], &c[31..38], 6, 50, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 31, 38), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_4::new(&mut c[..]); m.set_raw_f50(r); }
            assert!(updated::<true>(&b[31..38], &c[31..38], 6, 50, r as u64) && others(&b, &c, 31, 38), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 49 && v as i64 <= (1u64 << 49) as i64 - 1 || 50 == 64 {
                let mut c = b;
                { let mut m = S6_4::new(&mut c[..]); m.set_f50(v); }
                assert!(S6_4::new(&c[..]).get_f50() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[38..46], 6, 51);
            assert!(s.get_raw_f51() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 13) as i64) >> 13;
            assert!(s.get_f51() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_4::new(&mut c[..]); m.set_f51(v); }
            assert!(updated::<true>(&b[38..46], &c[38..46], 6, 51, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 38, 46), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_4::new(&mut c[..]); m.set_raw_f51(r); }
            assert!(updated::<true>(&b[38..46], &c[38..46], 6, 51, r as u64) && others(&b, &c, 38, 46), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 50 && v as i64 <= (1u64 << 50) as i64 - 1 || 51 == 64 {
                let mut c = b;
                { let mut m = S6_4::new(&mut c[..]); m.set_f51(v); }
                assert!(S6_4::new(&c[..]).get_f51() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[45..53], 6, 52);
            assert!(s.get_raw_f52() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 12) as i64) >> 12;
            assert!(s.get_f52() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_4::new(&mut c[..]); m.set_f52(v); }
            assert!(updated::<true>(&b[45..53], &c[45..53], 6, 52, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 45, 53), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_4::new(&mut c[..]); m.set_raw_f52(r); }
            assert!(updated::<true>(&b[45..53], &c[45..53], 6, 52, r as u64) && others(&b, &c, 45, 53), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 51 && v as i64 <= (1u64 << 51) as i64 - 1 || 52 == 64 {
                let mut c = b;
                { let mut m = S6_4::new(&mut c[..]); m.set_f52(v); }
                assert!(S6_4::new(&c[..]).get_f52() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o6_g5() {
        use crate::ibet::*;
        const N: usize = 62;
        assert!(<S6_5<()> as FixedSize>::SIZE == N && SIZE_S6_5 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S6_5::new(&b[..]);
        {
            let raw = field::<true>(&b[0..8], 6, 53);
            assert!(s.get_raw_f53() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 11) as i64) >> 11;
            assert!(s.get_f53() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_5::new(&mut c[..]); m.set_f53(v); }
            assert!(updated::<true>(&b[0..8], &c[0..8], 6, 53, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_5::new(&mut c[..]); m.set_raw_f53(r); }
            assert!(updated::<true>(&b[0..8], &c[0..8], 6, 53, r as u64) && others(&b, &c, 0, 8), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 52 && v as i64 <= (1u64 << 52) as i64 - 1 || 53 == 64 {
                let mut c = b;
                { let mut m = S6_5::new(&mut c[..]); m.set_f53(v); }
                assert!(S6_5::new(&c[..]).get_f53() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[7..15], 6, 54);
            assert!(s.get_raw_f54() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 10) as i64) >> 10;
            assert!(s.get_f54() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_5::new(&mut c[..]); m.set_f54(v); }
            assert!(updated::<true>(&b[7..15], &c[7..15], 6, 54, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 15), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_5::new(&mut c[..]); m.set_raw_f54(r); }
            assert!(updated::<true>(&b[7..15], &c[7..15], 6, 54, r as u64) && others(&b, &c, 7, 15), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 53 && v as i64 <= (1u64 << 53) as i64 - 1 || 54 == 64 {
                let mut c = b;
                { let mut m = S6_5::new(&mut c[..]); m.set_f54(v); }
                assert!(S6_5::new(&c[..]).get_f54() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[14..22], 6, 55);
            assert!(s.get_raw_f55() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 9) as i64) >> 9;
            assert!(s.get_f55() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_5::new(&mut c[..]); m.set_f55(v); }
            assert!(updated::<true>(&b[14..22], &c[14..22], 6, 55, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 14, 22), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_5::new(&mut c[..]); m.set_raw_f55(r); }
            assert!(updated::<true>(&b[14..22], &c[14..22], 6, 55, r as u64) && others(&b, &c, 14, 22), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 54 && v as i64 <= (1u64 << 54) as i64 - 1 || 55 == 64 {
                let mut c = b;
                { let mut m = S6_5::new(&mut c[..]); m.set_f55(v); }
                assert!(S6_5::new(&c[..]).get_f55() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[21..29], 6, 58);
            assert!(s.get_raw_f58() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 6) as i64) >> 6;
            assert!(s.get_f58() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_5::new(&mut c[..]); m.set_f58(v); }
            assert!(updated::<true>(&b[21..29], &c[21..29], 6, 58, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 21, 29), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_5::new(&mut c[..]); m.set_raw_f58(r); }
            assert!(updated::<true>(&b[21..29], &c[21..29], 6, 58, r as u64) && others(&b, &c, 21, 29), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 57 && v as i64 <= (1u64 << 57) as i64 - 1 || 58 == 64 {
                let mut c = b;
                { let mut m = S6_5::new(&mut c[..]); m.set_f58(v); }
                assert!(S6_5::new(&c[..]).get_f58() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[29..38], 6, 59);
            assert!(s.get_raw_f59() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 5) as i64) >> 5;
            assert!(s.get_f59() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_5::new(&mut c[..]); m.set_f59(v); }
            assert!(updated::<true>(&b[29..38], &c[29..38], 6, 59, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 29, 38), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_5::new(&mut c[..]); m.set_raw_f59(r); }
            assert!(updated::<true>(&b[29..38], &c[29..38], 6, 59, r as u64) && others(&b, &c, 29, 38), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 58 && v as i64 <= (1u64 << 58) as i64 - 1 || 59 == 64 {
                let mut c = b;
                { let mut m = S6_5::new(&mut c[..]); m.set_f59(v); }
                assert!(S6_5::new(&c[..]).get_f59() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[37..46], 6, 60);
            assert!(s.get_raw_f60() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 4) as i64) >> 4;
            assert!(s.get_f60() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_5::new(&mut c[..]); m.set_f60(v); }
            assert!(updated::<true>(&b[37..46], &c[37..46], 6, 60, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 37, 46), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_5::new(&mut c[..]); m.set_raw_f60(r); }
            assert!(updated::<true>(&b[37..46], &c[37..46], 6, 60, r as u64) && others(&b, &c, 37, 46), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 59 && v as i64 <= (1u64 << 59) as i64 - 1 || 60 == 64 {
                let mut c = b;
                { let mut m = S6_5::new(&mut c[..]); m.set_f60(v); }
                assert!(S6_5::new(&c[..]).get_f60() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[45..54], 6, 61);
            assert!(s.get_raw_f61() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 3) as i64) >> 3;
            assert!(s.get_f61() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_5::new(&mut c[..]); m.set_f61(v); }
            assert!(updated::<true>(&b[45..54], &c[45..54], 6, 61, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 45, 54), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_5::new(&mut c[..]); m.set_raw_f61(r); }
            assert!(updated::<true>(&b[45..54], &c[45..54], 6, 61, r as u64) && others(&b, &c, 45, 54), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 60 && v as i64 <= (1u64 << 60) as i64 - 1 || 61 == 64 {
                let mut c = b;
                { let mut m = S6_5::new(&mut c[..]); m.set_f61(v); }
                assert!(S6_5::new(&c[..]).get_f61() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[53..62], 6, 62);
            assert!(s.get_raw_f62() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 2) as i64) >> 2;
            assert!(s.get_f62() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S6_5::new(&mut c[..]); m.set_f62(v); }
            assert!(updated::<true>(&b[53..62], &c[53..62], 6, 62, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 53, 62), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S6_5::new(&mut c[..]); m.set_raw_f62(r); }
            assert!(updated::<true>(&b[53..62], &c[53..62], 6, 62, r as u64) && others(&b, &c, 53, 62), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 61 && v as i64 <= (1u64 << 61) as i64 - 1 || 62 == 64 {
                let mut c = b;
                { let mut m = S6_5::new(&mut c[..]); m.set_f62(v); }
                assert!(S6_5::new(&c[..]).get_f62() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o7_g0() {
        use crate::ibet::*;
        const N: usize = 13;
        assert!(<S7_0<()> as FixedSize>::SIZE == N && SIZE_S7_0 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S7_0::new(&b[..]);
        {
            let raw = field::<true>(&b[0..2], 7, 2);
            assert!(s.get_raw_f2() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 62) as i64) >> 62;
            assert!(s.get_f2() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_0::new(&mut c[..]); m.set_f2(v); }
            assert!(updated::<true>(&b[0..2], &c[0..2], 7, 2, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_0::new(&mut c[..]); m.set_raw_f2(r); }
            assert!(updated::<true>(&b[0..2], &c[0..2], 7, 2, r as u64) && others(&b, &c, 0, 2), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 1 && v as i64 <= (1u64 << 1) as i64 - 1 || 2 == 64 {
                let mut c = b;
                { let mut m = S7_0::new(&mut c[..]); m.set_f2(v); }
                assert!(S7_0::new(&c[..]).get_f2() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[1..3], 7, 4);
            assert!(s.get_raw_f4() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 60) as i64) >> 60;
            assert!(s.get_f4() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_0::new(&mut c[..]); m.set_f4(v); }
            assert!(updated::<true>(&b[1..3], &c[1..3], 7, 4, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_0::new(&mut c[..]); m.set_raw_f4(r); }
            assert!(updated::<true>(&b[1..3], &c[1..3], 7, 4, r as u64) && others(&b, &c, 1, 3), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 3 && v as i64 <= (1u64 << 3) as i64 - 1 || 4 == 64 {
                let mut c = b;
                { let mut m = S7_0::new(&mut c[..]); m.set_f4(v); }
                assert!(S7_0::new(&c[..]).get_f4() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[2..4], 7, 5);
            assert!(s.get_raw_f5() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 59) as i64) >> 59;
            assert!(s.get_f5() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_0::new(&mut c[..]); m.set_f5(v); }
            assert!(updated::<true>(&b[2..4], &c[2..4], 7, 5, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_0::new(&mut c[..]); m.set_raw_f5(r); }
            assert!(updated::<true>(&b[2..4], &c[2..4], 7, 5, r as u64) && others(&b, &c, 2, 4), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 4 && v as i64 <= (1u64 << 4) as i64 - 1 || 5 == 64 {
                let mut c = b;
                { let mut m = S7_0::new(&mut c[..]); m.set_f5(v); }
                assert!(S7_0::new(&c[..]).get_f5() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[3..5], 7, 6);
            assert!(s.get_raw_f6() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 58) as i64) >> 58;
            assert!(s.get_f6() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_0::new(&mut c[..]); m.set_f6(v); }
            assert!(updated::<true>(&b[3..5], &c[3..5], 7, 6, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_0::new(&mut c[..]); m.set_raw_f6(r); }
            assert!(updated::<true>(&b[3..5], &c[3..5], 7, 6, r as u64) && others(&b, &c, 3, 5), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 5 && v as i64 <= (1u64 << 5) as i64 - 1 || 6 == 64 {
                let mut c = b;
                { let mut m = S7_0::new(&mut c[..]); m.set_f6(v); }
                assert!(S7_0::new(&c[..]).get_f6() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[4..7], 7, 10);
            assert!(s.get_raw_f10() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 54) as i64) >> 54;
            assert!(s.get_f10() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_0::new(&mut c[..]); m.set_f10(v); }
            assert!(updated::<true>(&b[4..7], &c[4..7], 7, 10, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_0::new(&mut c[..]); m.set_raw_f10(r); }
            assert!(updated::<true>(&b[4..7], &c[4..7], 7, 10, r as u64) && others(&b, &c, 4, 7), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 9 && v as i64 <= (1u64 << 9) as i64 - 1 || 10 == 64 {
                let mut c = b;
                { let mut m = S7_0::new(&mut c[..]); m.set_f10(v); }
                assert!(S7_0::new(&c[..]).get_f10() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[6..9], 7, 11);
            assert!(s.get_raw_f11() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 53) as i64) >> 53;
            assert!(s.get_f11() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_0::new(&mut c[..]); m.set_f11(v); }
            assert!(updated::<true>(&b[6..9], &c[6..9], 7, 11, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 9), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_0::new(&mut c[..]); m.set_raw_f11(r); }
            assert!(updated::<true>(&b[6..9], &c[6..9], 7, 11, r as u64) && others(&b, &c, 6, 9), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 10 && v as i64 <= (1u64 << 10) as i64 - 1 || 11 == 64 {
                let mut c = b;
                { let mut m = S7_0::new(&mut c[..]); m.set_f11(v); }
                assert!(S7_0::new(&c[..]).get_f11() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[8..11], 7, 12);
            assert!(s.get_raw_f12() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 52) as i64) >> 52;
            assert!(s.get_f12() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_0::new(&mut c[..]); m.set_f12(v); }
            assert!(updated::<true>(&b[8..11], &c[8..11], 7, 12, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 8, 11), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_0::new(&mut c[..]); m.set_raw_f12(r); }
            assert!(updated::<true>(&b[8..11], &c[8..11], 7, 12, r as u64) && others(&b, &c, 8, 11), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 11 && v as i64 <= (1u64 << 11) as i64 - 1 || 12 == 64 {
                let mut c = b;
                { let mut m = S7_0::new(&mut c[..]); m.set_f12(v); }
                assert!(S7_0::new(&c[..]).get_f12() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[10..13], 7, 13);
            assert!(s.get_raw_f13() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 51) as i64) >> 51;
            assert!(s.get_f13() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_0::new(&mut c[..]); m.set_f13(v); }
            assert!(updated::<true>(&b[10..13], &c[10..13], 7, 13, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_0::new(&mut c[..]); m.set_raw_f13(r); }
            assert!(updated::<true>(&b[10..13], &c[10..13], 7, 13, r as u64) && others(&b, &c, 10, 13), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 12 && v as i64 <= (1u64 << 12) as i64 - 1 || 13 == 64 {
                let mut c = b;
                { let mut m = S7_0::new(&mut c[..]); m.set_f13(v); }
                assert!(S7_0::new(&c[..]).get_f13() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o7_g1() {
        use crate::ibet::*;
        const N: usize = 23;
        assert!(<S7_1<()> as FixedSize>::SIZE == N && SIZE_S7_1 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S7_1::new(&b[..]);
        {
            let raw = field::<true>(&b[0..3], 7, 14);
            assert!(s.get_raw_f14() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 50) as i64) >> 50;
            assert!(s.get_f14() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_1::new(&mut c[..]); m.set_f14(v); }
            assert!(updated::<true>(&b[0..3], &c[0..3], 7, 14, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_1::new(&mut c[..]); m.set_raw_f14(r); }
            assert!(updated::<true>(&b[0..3], &c[0..3], 7, 14, r as u64) && others(&b, &c, 0, 3), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 13 && v as i64 <= (1u64 << 13) as i64 - 1 || 14 == 64 {
                let mut c = b;
                { let mut m = S7_1::new(&mut c[..]); m.set_f14(v); }
                assert!(S7_1::new(&c[..]).get_f14() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[2..5], 7, 15);
            assert!(s.get_raw_f15() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 49) as i64) >> 49;
            assert!(s.get_f15() as i64 == want, "the value is the two's complement of the bits");
            let v: i16 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_1::new(&mut c[..]); m.set_f15(v); }
            assert!(updated::<true>(&b[2..5], &c[2..5], 7, 15, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_1::new(&mut c[..]); m.set_raw_f15(r); }
            assert!(updated::<true>(&b[2..5], &c[2..5], 7, 15, r as u64) && others(&b, &c, 2, 5), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 14 && v as i64 <= (1u64 << 14) as i64 - 1 || 15 == 64 {
                let mut c = b;
                { let mut m = S7_1::new(&mut c[..]); m.set_f15(v); }
                assert!(S7_1::new(&c[..]).get_f15() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[4..8], 7, 18);
            assert!(s.get_raw_f18() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 46) as i64) >> 46;
            assert!(s.get_f18() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_1::new(&mut c[..]); m.set_f18(v); }
            assert!(updated::<true>(&b[4..8], &c[4..8], 7, 18, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_1::new(&mut c[..]); m.set_raw_f18(r); }
            assert!(updated::<true>(&b[4..8], &c[4..8], 7, 18, r as u64) && others(&b, &c, 4, 8), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 17 && v as i64 <= (1u64 << 17) as i64 - 1 || 18 == 64 {
                let mut c = b;
                { let mut m = S7_1::new(&mut c[..]); m.set_f18(v); }
                assert!(S7_1::new(&c[..]).get_f18() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[7..11], 7, 19);
            assert!(s.get_raw_f19() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 45) as i64) >> 45;
            assert!(s.get_f19() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_1::new(&mut c[..]); m.set_f19(v); }
            assert!(updated::<true>(&b[7..11], &c[7..11], 7, 19, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 11), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_1::new(&mut c[..]); m.set_raw_f19(r); }
            assert!(updated::<true>(&b[7..11], &c[7..11], 7, 19, r as u64) && others(&b, &c, 7, 11), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 18 && v as i64 <= (1u64 << 18) as i64 - 1 || 19 == 64 {
                let mut c = b;
                { let mut m = S7_1::new(&mut c[..]); m.set_f19(v); }
                assert!(S7_1::new(&c[..]).get_f19() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[10..14], 7, 20);
            assert!(s.get_raw_f20() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 44) as i64) >> 44;
            assert!(s.get_f20() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_1::new(&mut c[..]); m.set_f20(v); }
            assert!(updated::<true>(&b[10..14], &c[10..14], 7, 20, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 14), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_1::new(&mut c[..]); m.set_raw_f20(r); }
            assert!(updated::<true>(&b[10..14], &c[10..14], 7, 20, r as u64) && others(&b, &c, 10, 14), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 19 && v as i64 <= (1u64 << 19) as i64 - 1 || 20 == 64 {
                let mut c = b;
                { let mut m = S7_1::new(&mut c[..]); m.set_f20(v); }
                assert!(S7_1::new(&c[..]).get_f20() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[13..17], 7, 21);
            assert!(s.get_raw_f21() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 43) as i64) >> 43;
            assert!(s.get_f21() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_1::new(&mut c[..]); m.set_f21(v); }
            assert!(updated::<true>(&b[13..17], &c[13..17], 7, 21, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 13, 17), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_1::new(&mut c[..]); m.set_raw_f21(r); }
            assert!(updated::<true>(&b[13..17], &c[13..17], 7, 21, r as u64) && others(&b, &c, 13, 17), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 20 && v as i64 <= (1u64 << 20) as i64 - 1 || 21 == 64 {
                let mut c = b;
                { let mut m = S7_1::new(&mut c[..]); m.set_f21(v); }
                assert!(S7_1::new(&c[..]).get_f21() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[16..20], 7, 22);
            assert!(s.get_raw_f22() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 42) as i64) >> 42;
            assert!(s.get_f22() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_1::new(&mut c[..]); m.set_f22(v); }
            assert!(updated::<true>(&b[16..20], &c[16..20], 7, 22, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 20), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_1::new(&mut c[..]); m.set_raw_f22(r); }
            assert!(updated::<true>(&b[16..20], &c[16..20], 7, 22, r as u64) && others(&b, &c, 16, 20), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 21 && v as i64 <= (1u64 << 21) as i64 - 1 || 22 == 64 {
                let mut c = b;
                { let mut m = S7_1::new(&mut c[..]); m.set_f22(v); }
                assert!(S7_1::new(&c[..]).get_f22() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[19..23], 7, 23);
            assert!(s.get_raw_f23() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 41) as i64) >> 41;
            assert!(s.get_f23() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_1::new(&mut c[..]); m.set_f23(v); }
            assert!(updated::<true>(&b[19..23], &c[19..23], 7, 23, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 19, 23), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_1::new(&mut c[..]); m.set_raw_f23(r); }
            assert!(updated::<true>(&b[19..23], &c[19..23], 7, 23, r as u64) && others(&b, &c, 19, 23), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 22 && v as i64 <= (1u64 << 22) as i64 - 1 || 23 == 64 {
                let mut c = b;
                { let mut m = S7_1::new(&mut c[..]); m.set_f23(v); }
                assert!(S7_1::new(&c[..]).get_f23() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o7_g2() {
        use crate::ibet::*;
        const N: usize = 35;
        assert!(<S7_2<()> as FixedSize>::SIZE == N && SIZE_S7_2 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S7_2::new(&b[..]);
        {
            let raw = field::<true>(&b[0..5], 7, 26);
            assert!(s.get_raw_f26() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 38) as i64) >> 38;
            assert!(s.get_f26() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_2::new(&mut c[..]); m.set_f26(v); }
            assert!(updated::<true>(&b[0..5], &c[0..5], 7, 26, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_2::new(&mut c[..]); m.set_raw_f26(r); }
            assert!(updated::<true>(&b[0..5], &c[0..5], 7, 26, r as u64) && others(&b, &c, 0, 5), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 25 && v as i64 <= (1u64 << 25) as i64 - 1 || 26 == 64 {
                let mut c = b;
                { let mut m = S7_2::new(&mut c[..]); m.set_f26(v); }
                assert!(S7_2::new(&c[..]).get_f26() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[4..9], 7, 27);
            assert!(s.get_raw_f27() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 37) as i64) >> 37;
            assert!(s.get_f27() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_2::new(&mut c[..]); m.set_f27(v); }
            assert!(updated::<true>(&b[4..9], &c[4..9], 7, 27, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 9), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_2::new(&mut c[..]); m.set_raw_f27(r); }
            assert!(updated::<true>(&b[4..9], &c[4..9], 7, 27, r as u64) && others(&b, &c, 4, 9), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 26 && v as i64 <= (1u64 << 26) as i64 - 1 || 27 == 64 {
                let mut c = b;
                { let mut m = S7_2::new(&mut c[..]); m.set_f27(v); }
                assert!(S7_2::new(&c[..]).get_f27() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[8..13], 7, 28);
            assert!(s.get_raw_f28() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 36) as i64) >> 36;
            assert!(s.get_f28() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_2::new(&mut c[..]); m.set_f28(v); }
            assert!(updated::<true>(&b[8..13], &c[8..13], 7, 28, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 8, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_2::new(&mut c[..]); m.set_raw_f28(r); }
            assert!(updated::<true>(&b[8..13], &c[8..13], 7, 28, r as u64) && others(&b, &c, 8, 13), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 27 && v as i64 <= (1u64 << 27) as i64 - 1 || 28 == 64 {
                let mut c = b;
                { let mut m = S7_2::new(&mut c[..]); m.set_f28(v); }
                assert!(S7_2::new(&c[..]).get_f28() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[12..17], 7, 29);
            assert!(s.get_raw_f29() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 35) as i64) >> 35;
            assert!(s.get_f29() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_2::new(&mut c[..]); m.set_f29(v); }
            assert!(updated::<true>(&b[12..17], &c[12..17], 7, 29, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 17), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_2::new(&mut c[..]); m.set_raw_f29(r); }
            assert!(updated::<true>(&b[12..17], &c[12..17], 7, 29, r as u64) && others(&b, &c, 12, 17), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 28 && v as i64 <= (1u64 << 28) as i64 - 1 || 29 == 64 {
                let mut c = b;
                { let mut m = S7_2::new(&mut c[..]); m.set_f29(v); }
                assert!(S7_2::new(&c[..]).get_f29() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[16..21], 7, 30);
            assert!(s.get_raw_f30() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 34) as i64) >> 34;
            assert!(s.get_f30() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_2::new(&mut c[..]); m.set_f30(v); }
            assert!(updated::<true>(&b[16..21], &c[16..21], 7, 30, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 21), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_2::new(&mut c[..]); m.set_raw_f30(r); }
            assert!(updated::<true>(&b[16..21], &c[16..21], 7, 30, r as u64) && others(&b, &c, 16, 21), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 29 && v as i64 <= (1u64 << 29) as i64 - 1 || 30 == 64 {
                let mut c = b;
                { let mut m = S7_2::new(&mut c[..]); m.set_f30(v); }
                assert!(S7_2::new(&c[..]).get_f30() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[20..25], 7, 31);
            assert!(s.get_raw_f31() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 33) as i64) >> 33;
            assert!(s.get_f31() as i64 == want, "the value is the two's complement of the bits");
            let v: i32 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_2::new(&mut c[..]); m.set_f31(v); }
            assert!(updated::<true>(&b[20..25], &c[20..25], 7, 31, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 25), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_2::new(&mut c[..]); m.set_raw_f31(r); }
            assert!(updated::<true>(&b[20..25], &c[20..25], 7, 31, r as u64) && others(&b, &c, 20, 25), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 30 && v as i64 <= (1u64 << 30) as i64 - 1 || 31 == 64 {
                let mut c = b;
                { let mut m = S7_2::new(&mut c[..]); m.set_f31(v); }
                assert!(S7_2::new(&c[..]).get_f31() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[24..30], 7, 34);
            assert!(s.get_raw_f34() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 30) as i64) >> 30;
            assert!(s.get_f34() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_2::new(&mut c[..]); m.set_f34(v); }
            assert!(updated::<true>(&b[24..30], &c[24..30], 7, 34, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 24, 30), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_2::new(&mut c[..]); m.set_raw_f34(r); }
            assert!(updated::<true>(&b[24..30], &c[24..30], 7, 34, r as u64) && others(&b, &c, 24, 30), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 33 && v as i64 <= (1u64 << 33) as i64 - 1 || 34 == 64 {
                let mut c = b;
                { let mut m = S7_2::new(&mut c[..]); m.set_f34(v); }
                assert!(S7_2::new(&c[..]).get_f34() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[29..35], 7, 35);
            assert!(s.get_raw_f35() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 29) as i64) >> 29;
            assert!(s.get_f35() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_2::new(&mut c[..]); m.set_f35(v); }
            assert!(updated::<true>(&b[29..35], &c[29..35], 7, 35, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 29, 35), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_2::new(&mut c[..]); m.set_raw_f35(r); }
            assert!(updated::<true>(&b[29..35], &c[29..35], 7, 35, r as u64) && others(&b, &c, 29, 35), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 34 && v as i64 <= (1u64 << 34) as i64 - 1 || 35 == 64 {
                let mut c = b;
                { let mut m = S7_2::new(&mut c[..]); m.set_f35(v); }
                assert!(S7_2::new(&c[..]).get_f35() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o7_g3() {
        use crate::ibet::*;
        const N: usize = 45;
        assert!(<S7_3<()> as FixedSize>::SIZE == N && SIZE_S7_3 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S7_3::new(&b[..]);
        {
            let raw = field::<true>(&b[0..6], 7, 36);
            assert!(s.get_raw_f36() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 28) as i64) >> 28;
            assert!(s.get_f36() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_3::new(&mut c[..]); m.set_f36(v); }
            assert!(updated::<true>(&b[0..6], &c[0..6], 7, 36, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_3::new(&mut c[..]); m.set_raw_f36(r); }
            assert!(updated::<true>(&b[0..6], &c[0..6], 7, 36, r as u64) && others(&b, &c, 0, 6), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 35 && v as i64 <= (1u64 << 35) as i64 - 1 || 36 == 64 {
                let mut c = b;
                { let mut m = S7_3::new(&mut c[..]); m.set_f36(v); }
                assert!(S7_3::new(&c[..]).get_f36() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[5..11], 7, 37);
            assert!(s.get_raw_f37() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 27) as i64) >> 27;
            assert!(s.get_f37() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_3::new(&mut c[..]); m.set_f37(v); }
            assert!(updated::<true>(&b[5..11], &c[5..11], 7, 37, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 11), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_3::new(&mut c[..]); m.set_raw_f37(r); }
            assert!(updated::<true>(&b[5..11], &c[5..11], 7, 37, r as u64) && others(&b, &c, 5, 11), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 36 && v as i64 <= (1u64 << 36) as i64 - 1 || 37 == 64 {
                let mut c = b;
                { let mut m = S7_3::new(&mut c[..]); m.set_f37(v); }
                assert!(S7_3::new(&c[..]).get_f37() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[10..16], 7, 38);
            assert!(s.get_raw_f38() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 26) as i64) >> 26;
            assert!(s.get_f38() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_3::new(&mut c[..]); m.set_f38(v); }
            assert!(updated::<true>(&b[10..16], &c[10..16], 7, 38, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 16), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_3::new(&mut c[..]); m.set_raw_f38(r); }
            assert!(updated::<true>(&b[10..16], &c[10..16], 7, 38, r as u64) && others(&b, &c, 10, 16), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 37 && v as i64 <= (1u64 << 37) as i64 - 1 || 38 == 64 {
                let mut c = b;
                { let mut m = S7_3::new(&mut c[..]); m.set_f38(v); }
                assert!(S7_3::new(&c[..]).get_f38() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[15..21], 7, 39);
            assert!(s.get_raw_f39() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 25) as i64) >> 25;
            assert!(s.get_f39() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_3::new(&mut c[..]); m.set_f39(v); }
            assert!(updated::<true>(&b[15..21], &c[15..21], 7, 39, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 15, 21), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_3::new(&mut c[..]); m.set_raw_f39(r); }
            assert!(updated::<true>(&b[15..21], &c[15..21], 7, 39, r as u64) && others(&b, &c, 15, 21), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 38 && v as i64 <= (1u64 << 38) as i64 - 1 || 39 == 64 {
                let mut c = b;
                { let mut m = S7_3::new(&mut c[..]); m.set_f39(v); }
                assert!(S7_3::new(&c[..]).get_f39() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[20..26], 7, 41);
            assert!(s.get_raw_f41() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 23) as i64) >> 23;
            assert!(s.get_f41() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_3::new(&mut c[..]); m.set_f41(v); }
            assert!(updated::<true>(&b[20..26], &c[20..26], 7, 41, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 20, 26), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_3::new(&mut c[..]); m.set_raw_f41(r); }
            assert!(updated::<true>(&b[20..26], &c[20..26], 7, 41, r as u64) && others(&b, &c, 20, 26), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 40 && v as i64 <= (1u64 << 40) as i64 - 1 || 41 == 64 {
                let mut c = b;
                { let mut m = S7_3::new(&mut c[..]); m.set_f41(v); }
                assert!(S7_3::new(&c[..]).get_f41() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[26..33], 7, 42);
            assert!(s.get_raw_f42() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 22) as i64) >> 22;
            assert!(s.get_f42() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_3::new(&mut c[..]); m.set_f42(v); }
            assert!(updated::<true>(&b[26..33], &c[26..33], 7, 42, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 26, 33), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_3::new(&mut c[..]); m.set_raw_f42(r); }
            assert!(updated::<true>(&b[26..33], &c[26..33], 7, 42, r as u64) && others(&b, &c, 26, 33), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 41 && v as i64 <= (1u64 << 41) as i64 - 1 || 42 == 64 {
                let mut c = b;
                { let mut m = S7_3::new(&mut c[..]); m.set_f42(v); }
                assert!(S7_3::new(&c[..]).get_f42() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[32..39], 7, 43);
            assert!(s.get_raw_f43() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 21) as i64) >> 21;
            assert!(s.get_f43() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_3::new(&mut c[..]); m.set_f43(v); }
            assert!(updated::<true>(&b[32..39], &c[32..39], 7, 43, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 32, 39), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_3::new(&mut c[..]); m.set_raw_f43(r); }
            assert!(updated::<true>(&b[32..39], &c[32..39], 7, 43, r as u64) && others(&b, &c, 32, 39), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 42 && v as i64 <= (1u64 << 42) as i64 - 1 || 43 == 64 {
                let mut c = b;
                { let mut m = S7_3::new(&mut c[..]); m.set_f43(v); }
                assert!(S7_3::new(&c[..]).get_f43() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[38..45], 7, 44);
            assert!(s.get_raw_f44() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 20) as i64) >> 20;
            assert!(s.get_f44() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_3::new(&mut c[..]); m.set_f44(v); }
            assert!(updated::<true>(&b[38..45], &c[38..45], 7, 44, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 38, 45), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_3::new(&mut c[..]); m.set_raw_f44(r); }
            assert!(updated::<true>(&b[38..45], &c[38..45], 7, 44, r as u64) && others(&b, &c, 38, 45), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 43 && v as i64 <= (1u64 << 43) as i64 - 1 || 44 == 64 {
                let mut c = b;
                { let mut m = S7_3::new(&mut c[..]); m.set_f44(v); }
                assert!(S7_3::new(&c[..]).get_f44() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o7_g4() {
        use crate::ibet::*;
        const N: usize = 53;
        assert!(<S7_4<()> as FixedSize>::SIZE == N && SIZE_S7_4 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S7_4::new(&b[..]);
        {
            let raw = field::<true>(&b[0..7], 7, 45);
            assert!(s.get_raw_f45() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 19) as i64) >> 19;
            assert!(s.get_f45() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_4::new(&mut c[..]); m.set_f45(v); }
            assert!(updated::<true>(&b[0..7], &c[0..7], 7, 45, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_4::new(&mut c[..]); m.set_raw_f45(r); }
            assert!(updated::<true>(&b[0..7], &c[0..7], 7, 45, r as u64) && others(&b, &c, 0, 7), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 44 && v as i64 <= (1u64 << 44) as i64 - 1 || 45 == 64 {
                let mut c = b;
                { let mut m = S7_4::new(&mut c[..]); m.set_f45(v); }
                assert!(S7_4::new(&c[..]).get_f45() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[6..13], 7, 46);
            assert!(s.get_raw_f46() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 18) as i64) >> 18;
            assert!(s.get_f46() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_4::new(&mut c[..]); m.set_f46(v); }
            assert!(updated::<true>(&b[6..13], &c[6..13], 7, 46, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_4::new(&mut c[..]); m.set_raw_f46(r); }
            assert!(updated::<true>(&b[6..13], &c[6..13], 7, 46, r as u64) && others(&b, &c, 6, 13), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 45 && v as i64 <= (1u64 << 45) as i64 - 1 || 46 == 64 {
                let mut c = b;
                { let mut m = S7_4::new(&mut c[..]); m.set_f46(v); }
                assert!(S7_4::new(&c[..]).get_f46() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[12..19], 7, 47);
            assert!(s.get_raw_f47() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 17) as i64) >> 17;
            assert!(s.get_f47() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_4::new(&mut c[..]); m.set_f47(v); }
            assert!(updated::<true>(&b[12..19], &c[12..19], 7, 47, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_4::new(&mut c[..]); m.set_raw_f47(r); }
            assert!(updated::<true>(&b[12..19], &c[12..19], 7, 47, r as u64) && others(&b, &c, 12, 19), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 46 && v as i64 <= (1u64 << 46) as i64 - 1 || 47 == 64 {
                let mut c = b;
                { let mut m = S7_4::new(&mut c[..]); m.set_f47(v); }
                assert!(S7_4::new(&c[..]).get_f47() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[18..25], 7, 48);
            assert!(s.get_raw_f48() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 16) as i64) >> 16;
            assert!(s.get_f48() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_4::new(&mut c[..]); m.set_f48(v); }
            assert!(updated::<true>(&b[18..25], &c[18..25], 7, 48, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 18, 25), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_4::new(&mut c[..]); m.set_raw_f48(r); }
            assert!(updated::<true>(&b[18..25], &c[18..25], 7, 48, r as u64) && others(&b, &c, 18, 25), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 47 && v as i64 <= (1u64 << 47) as i64 - 1 || 48 == 64 {
                let mut c = b;
                { let mut m = S7_4::new(&mut c[..]); m.set_f48(v); }
                assert!(S7_4::new(&c[..]).get_f48() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[24..31], 7, 49);
            assert!(s.get_raw_f49() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 15) as i64) >> 15;
            assert!(s.get_f49() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_4::new(&mut c[..]); m.set_f49(v); }
            assert!(updated::<true>(&b[24..31], &c[24..31], 7, 49, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 24, 31), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_4::new(&mut c[..]); m.set_raw_f49(r); }
            assert!(updated::<true>(&b[24..31], &c[24..31], 7, 49, r as u64) && others(&b, &c, 24, 31), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 48 && v as i64 <= (1u64 << 48) as i64 - 1 || 49 == 64 {
                let mut c = b;
                { let mut m = S7_4::new(&mut c[..]); m.set_f49(v); }
                assert!(S7_4::new(&c[..]).get_f49() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[31..39], 7, 50);
            assert!(s.get_raw_f50() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 14) as i64) >> 14;
            assert!(s.get_f50() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_4::new(&mut c[..]); m.set_f50(v); }
            assert!(updated::<true>(&b[31..39], &c[31..39], 7, 50, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 31, 39), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_4::new(&mut c[..]); m.set_raw_f50(r); }
            assert!(updated::<true>(&b[31..39], &c[31..39], 7, 50, r as u64) && others(&b, &c, 31, 39), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 49 && v as i64 <= (1u64 << 49) as i64 - 1 || 50 == 64 {
                let mut c = b;
                { let mut m = S7_4::new(&mut c[..]); m.set_f50(v); }
                assert!(S7_4::new(&c[..]).get_f50() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[38..46], 7, 51);
            assert!(s.get_raw_f51() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 13) as i64) >> 13;
            assert!(s.get_f51() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_4::new(&mut c[..]); m.set_f51(v); }
            assert!(updated::<true>(&b[38..46], &c[38..46], 7, 51, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 38, 46), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_4::new(&mut c[..]); m.set_raw_f51(r); }
            assert!(updated::<true>(&b[38..46], &c[38..46], 7, 51, r as u64) && others(&b, &c, 38, 46), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 50 && v as i64 <= (1u64 << 50) as i64 - 1 || 51 == 64 {
                let mut c = b;
                { let mut m = S7_4::new(&mut c[..]); m.set_f51(v); }
                assert!(S7_4::new(&c[..]).get_f51() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[45..53], 7, 52);
            assert!(s.get_raw_f52() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 12) as i64) >> 12;
            assert!(s.get_f52() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_4::new(&mut c[..]); m.set_f52(v); }
            assert!(updated::<true>(&b[45..53], &c[45..53], 7, 52, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 45, 53), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_4::new(&mut c[..]); m.set_raw_f52(r); }
            assert!(updated::<true>(&b[45..53], &c[45..53], 7, 52, r as u64) && others(&b, &c, 45, 53), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 51 && v as i64 <= (1u64 << 51) as i64 - 1 || 52 == 64 {
                let mut c = b;
                { let mut m = S7_4::new(&mut c[..]); m.set_f52(v); }
                assert!(S7_4::new(&c[..]).get_f52() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn o7_g5() {
        use crate::ibet::*;
        const N: usize = 62;
        assert!(<S7_5<()> as FixedSize>::SIZE == N && SIZE_S7_5 == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = S7_5::new(&b[..]);
        {
            let raw = field::<true>(&b[0..8], 7, 53);
            assert!(s.get_raw_f53() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 11) as i64) >> 11;
            assert!(s.get_f53() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_5::new(&mut c[..]); m.set_f53(v); }
            assert!(updated::<true>(&b[0..8], &c[0..8], 7, 53, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 8), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_5::new(&mut c[..]); m.set_raw_f53(r); }
            assert!(updated::<true>(&b[0..8], &c[0..8], 7, 53, r as u64) && others(&b, &c, 0, 8), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 52 && v as i64 <= (1u64 << 52) as i64 - 1 || 53 == 64 {
                let mut c = b;
                { let mut m = S7_5::new(&mut c[..]); m.set_f53(v); }
                assert!(S7_5::new(&c[..]).get_f53() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[7..15], 7, 54);
            assert!(s.get_raw_f54() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 10) as i64) >> 10;
            assert!(s.get_f54() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_5::new(&mut c[..]); m.set_f54(v); }
            assert!(updated::<true>(&b[7..15], &c[7..15], 7, 54, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 15), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_5::new(&mut c[..]); m.set_raw_f54(r); }
            assert!(updated::<true>(&b[7..15], &c[7..15], 7, 54, r as u64) && others(&b, &c, 7, 15), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 53 && v as i64 <= (1u64 << 53) as i64 - 1 || 54 == 64 {
                let mut c = b;
                { let mut m = S7_5::new(&mut c[..]); m.set_f54(v); }
                assert!(S7_5::new(&c[..]).get_f54() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[14..22], 7, 55);
            assert!(s.get_raw_f55() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 9) as i64) >> 9;
            assert!(s.get_f55() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_5::new(&mut c[..]); m.set_f55(v); }
            assert!(updated::<true>(&b[14..22], &c[14..22], 7, 55, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 14, 22), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_5::new(&mut c[..]); m.set_raw_f55(r); }
            assert!(updated::<true>(&b[14..22], &c[14..22], 7, 55, r as u64) && others(&b, &c, 14, 22), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 54 && v as i64 <= (1u64 << 54) as i64 - 1 || 55 == 64 {
                let mut c = b;
                { let mut m = S7_5::new(&mut c[..]); m.set_f55(v); }
                assert!(S7_5::new(&c[..]).get_f55() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[21..30], 7, 58);
            assert!(s.get_raw_f58() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 6) as i64) >> 6;
            assert!(s.get_f58() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_5::new(&mut c[..]); m.set_f58(v); }
            assert!(updated::<true>(&b[21..30], &c[21..30], 7, 58, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 21, 30), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_5::new(&mut c[..]); m.set_raw_f58(r); }
            assert!(updated::<true>(&b[21..30], &c[21..30], 7, 58, r as u64) && others(&b, &c, 21, 30), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 57 && v as i64 <= (1u64 << 57) as i64 - 1 || 58 == 64 {
                let mut c = b;
                { let mut m = S7_5::new(&mut c[..]); m.set_f58(v); }
                assert!(S7_5::new(&c[..]).get_f58() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[29..38], 7, 59);
            assert!(s.get_raw_f59() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 5) as i64) >> 5;
            assert!(s.get_f59() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_5::new(&mut c[..]); m.set_f59(v); }
            assert!(updated::<true>(&b[29..38], &c[29..38], 7, 59, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 29, 38), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_5::new(&mut c[..]); m.set_raw_f59(r); }
            assert!(updated::<true>(&b[29..38], &c[29..38], 7, 59, r as u64) && others(&b, &c, 29, 38), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 58 && v as i64 <= (1u64 << 58) as i64 - 1 || 59 == 64 {
                let mut c = b;
                { let mut m = S7_5::new(&mut c[..]); m.set_f59(v); }
                assert!(S7_5::new(&c[..]).get_f59() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[37..46], 7, 60);
            assert!(s.get_raw_f60() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 4) as i64) >> 4;
            assert!(s.get_f60() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_5::new(&mut c[..]); m.set_f60(v); }
            assert!(updated::<true>(&b[37..46], &c[37..46], 7, 60, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 37, 46), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_5::new(&mut c[..]); m.set_raw_f60(r); }
            assert!(updated::<true>(&b[37..46], &c[37..46], 7, 60, r as u64) && others(&b, &c, 37, 46), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 59 && v as i64 <= (1u64 << 59) as i64 - 1 || 60 == 64 {
                let mut c = b;
                { let mut m = S7_5::new(&mut c[..]); m.set_f60(v); }
                assert!(S7_5::new(&c[..]).get_f60() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[45..54], 7, 61);
            assert!(s.get_raw_f61() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 3) as i64) >> 3;
            assert!(s.get_f61() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_5::new(&mut c[..]); m.set_f61(v); }
            assert!(updated::<true>(&b[45..54], &c[45..54], 7, 61, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 45, 54), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_5::new(&mut c[..]); m.set_raw_f61(r); }
            assert!(updated::<true>(&b[45..54], &c[45..54], 7, 61, r as u64) && others(&b, &c, 45, 54), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 60 && v as i64 <= (1u64 << 60) as i64 - 1 || 61 == 64 {
                let mut c = b;
                { let mut m = S7_5::new(&mut c[..]); m.set_f61(v); }
                assert!(S7_5::new(&c[..]).get_f61() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[53..62], 7, 62);
            assert!(s.get_raw_f62() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 2) as i64) >> 2;
            assert!(s.get_f62() as i64 == want, "the value is the two's complement of the bits");
            let v: i64 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = S7_5::new(&mut c[..]); m.set_f62(v); }
            assert!(updated::<true>(&b[53..62], &c[53..62], 7, 62, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 53, 62), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = S7_5::new(&mut c[..]); m.set_raw_f62(r); }
            assert!(updated::<true>(&b[53..62], &c[53..62], 7, 62, r as u64) && others(&b, &c, 53, 62), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 61 && v as i64 <= (1u64 << 61) as i64 - 1 || 62 == 64 {
                let mut c = b;
                { let mut m = S7_5::new(&mut c[..]); m.set_f62(v); }
                assert!(S7_5::new(&c[..]).get_f62() == v, "a value in the range of the field is given back");
            }
        }
    }
}
#[cfg(feature = "mix")]
mod mixle {
    use crate::spec::*;
    use bp3d_proto::util::FixedSize;
    #[kani::proof]
    fn inner() {
        use crate::mixle::*;
        const N: usize = 2;
        assert!(<Inner<()> as FixedSize>::SIZE == N && SIZE_INNER == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = Inner::new(&b[..]);
        {
            let raw = field::<false>(&b[0..1], 0, 5);
            assert!(s.get_raw_a() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_a() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = Inner::new(&mut c[..]); m.set_a(v); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 0, 5, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Inner::new(&mut c[..]); m.set_raw_a(r); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 0, 5, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[0..2], 5, 7);
            assert!(s.get_raw_b() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 57) as i64) >> 57;
            assert!(s.get_b() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = Inner::new(&mut c[..]); m.set_b(v); }
            assert!(updated::<false>(&b[0..2], &c[0..2], 5, 7, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Inner::new(&mut c[..]); m.set_raw_b(r); }
            assert!(updated::<false>(&b[0..2], &c[0..2], 5, 7, r as u64) && others(&b, &c, 0, 2), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 6 && v as i64 <= (1u64 << 6) as i64 - 1 || 7 == 64 {
                let mut c = b;
                { let mut m = Inner::new(&mut c[..]); m.set_b(v); }
                assert!(Inner::new(&c[..]).get_b() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn mid() {
        use crate::mixle::*;
        const N: usize = 3;
        assert!(<Mid<()> as FixedSize>::SIZE == N && SIZE_MID == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = Mid::new(&b[..]);
        {
            let raw = field::<false>(&b[0..1], 0, 8);
            assert!(s.get_raw_x() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_x() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = Mid::new(&mut c[..]); m.set_x(v); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 0, 8, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Mid::new(&mut c[..]); m.set_raw_x(r); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 0, 8, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[1..2], 0, 5);
            assert!(s.get_inner().get_raw_a() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_inner().get_a() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = Mid::new(&mut c[..]); m.get_inner_mut().set_a(v); }
            assert!(updated::<false>(&b[1..2], &c[1..2], 0, 5, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Mid::new(&mut c[..]); m.get_inner_mut().set_raw_a(r); }
            assert!(updated::<false>(&b[1..2], &c[1..2], 0, 5, r as u64) && others(&b, &c, 1, 2), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[1..3], 5, 7);
            assert!(s.get_inner().get_raw_b() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 57) as i64) >> 57;
            assert!(s.get_inner().get_b() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = Mid::new(&mut c[..]); m.get_inner_mut().set_b(v); }
            assert!(updated::<false>(&b[1..3], &c[1..3], 5, 7, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Mid::new(&mut c[..]); m.get_inner_mut().set_raw_b(r); }
            assert!(updated::<false>(&b[1..3], &c[1..3], 5, 7, r as u64) && others(&b, &c, 1, 3), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 6 && v as i64 <= (1u64 << 6) as i64 - 1 || 7 == 64 {
                let mut c = b;
                { let mut m = Mid::new(&mut c[..]); m.get_inner_mut().set_b(v); }
                assert!(Mid::new(&c[..]).get_inner().get_b() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[2..3], 4, 4);
            assert!(s.get_raw_tail() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_tail() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = Mid::new(&mut c[..]); m.set_tail(v); }
            assert!(updated::<false>(&b[2..3], &c[2..3], 4, 4, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Mid::new(&mut c[..]); m.set_raw_tail(r); }
            assert!(updated::<false>(&b[2..3], &c[2..3], 4, 4, r as u64) && others(&b, &c, 2, 3), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn outer() {
        use crate::mixle::*;
        const N: usize = 13;
        assert!(<Outer<()> as FixedSize>::SIZE == N && SIZE_OUTER == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = Outer::new(&b[..]);
        {
            let raw = field::<false>(&b[0..2], 0, 16);
            assert!(s.get_raw_h() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_h() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = Outer::new(&mut c[..]); m.set_h(v); }
            assert!(updated::<false>(&b[0..2], &c[0..2], 0, 16, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Outer::new(&mut c[..]); m.set_raw_h(r); }
            assert!(updated::<false>(&b[0..2], &c[0..2], 0, 16, r as u64) && others(&b, &c, 0, 2), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[2..3], 0, 8);
            assert!(s.get_mid().get_raw_x() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_mid().get_x() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = Outer::new(&mut c[..]); m.get_mid_mut().set_x(v); }
            assert!(updated::<false>(&b[2..3], &c[2..3], 0, 8, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Outer::new(&mut c[..]); m.get_mid_mut().set_raw_x(r); }
            assert!(updated::<false>(&b[2..3], &c[2..3], 0, 8, r as u64) && others(&b, &c, 2, 3), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[3..4], 0, 5);
            assert!(s.get_mid().get_inner().get_raw_a() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_mid().get_inner().get_a() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = Outer::new(&mut c[..]); m.get_mid_mut().get_inner_mut().set_a(v); }
            assert!(updated::<false>(&b[3..4], &c[3..4], 0, 5, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Outer::new(&mut c[..]); m.get_mid_mut().get_inner_mut().set_raw_a(r); }
            assert!(updated::<false>(&b[3..4], &c[3..4], 0, 5, r as u64) && others(&b, &c, 3, 4), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[3..5], 5, 7);
            assert!(s.get_mid().get_inner().get_raw_b() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 57) as i64) >> 57;
            assert!(s.get_mid().get_inner().get_b() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = Outer::new(&mut c[..]); m.get_mid_mut().get_inner_mut().set_b(v); }
            assert!(updated::<false>(&b[3..5], &c[3..5], 5, 7, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Outer::new(&mut c[..]); m.get_mid_mut().get_inner_mut().set_raw_b(r); }
            assert!(updated::<false>(&b[3..5], &c[3..5], 5, 7, r as u64) && others(&b, &c, 3, 5), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 6 && v as i64 <= (1u64 << 6) as i64 - 1 || 7 == 64 {
                let mut c = b;
                { let mut m = Outer::new(&mut c[..]); m.get_mid_mut().get_inner_mut().set_b(v); }
                assert!(Outer::new(&c[..]).get_mid().get_inner().get_b() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[4..5], 4, 4);
            assert!(s.get_mid().get_raw_tail() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_mid().get_tail() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = Outer::new(&mut c[..]); m.get_mid_mut().set_tail(v); }
            assert!(updated::<false>(&b[4..5], &c[4..5], 4, 4, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Outer::new(&mut c[..]); m.get_mid_mut().set_raw_tail(r); }
            assert!(updated::<false>(&b[4..5], &c[4..5], 4, 4, r as u64) && others(&b, &c, 4, 5), "the raw setter replaces the bits of the field only");
        }
        {
            let a = s.get_arr();
            assert!(a.len() == 3, "the array has its length");
            assert!(a.get_raw(0) as u16 as u64 == num(false, &b[5..7], 2), "item 0 is read at its place");
            let mut c = b;
            let v: u16 = kani::any();
            { let mut m = Outer::new(&mut c[..]); m.get_arr_mut().set_raw(0, v); }
            assert!(others(&b, &c, 5, 7), "the other bytes keep their value");
            assert!(num(false, &c[5..7], 2) == (v as u16 as u64) & mask(16), "item 0 is stored at its place");
        }
        {
            let a = s.get_arr();
            assert!(a.len() == 3, "the array has its length");
            assert!(a.get_raw(1) as u16 as u64 == num(false, &b[7..9], 2), "item 1 is read at its place");
            let mut c = b;
            let v: u16 = kani::any();
            { let mut m = Outer::new(&mut c[..]); m.get_arr_mut().set_raw(1, v); }
            assert!(others(&b, &c, 7, 9), "the other bytes keep their value");
            assert!(num(false, &c[7..9], 2) == (v as u16 as u64) & mask(16), "item 1 is stored at its place");
        }
        {
            let a = s.get_arr();
            assert!(a.len() == 3, "the array has its length");
            assert!(a.get_raw(2) as u16 as u64 == num(false, &b[9..11], 2), "item 2 is read at its place");
            let mut c = b;
            let v: u16 = kani::any();
            { let mut m = Outer::new(&mut c[..]); m.get_arr_mut().set_raw(2, v); }
            assert!(others(&b, &c, 9, 11), "the other bytes keep their value");
            assert!(num(false, &c[9..11], 2) == (v as u16 as u64) & mask(16), "item 2 is stored at its place");
        }
        {
            let raw = field::<false>(&b[11..12], 0, 5);
            assert!(s.get_last().get_raw_a() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_last().get_a() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = Outer::new(&mut c[..]); m.get_last_mut().set_a(v); }
            assert!(updated::<false>(&b[11..12], &c[11..12], 0, 5, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 11, 12), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Outer::new(&mut c[..]); m.get_last_mut().set_raw_a(r); }
            assert!(updated::<false>(&b[11..12], &c[11..12], 0, 5, r as u64) && others(&b, &c, 11, 12), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[11..13], 5, 7);
            assert!(s.get_last().get_raw_b() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 57) as i64) >> 57;
            assert!(s.get_last().get_b() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = Outer::new(&mut c[..]); m.get_last_mut().set_b(v); }
            assert!(updated::<false>(&b[11..13], &c[11..13], 5, 7, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 11, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Outer::new(&mut c[..]); m.get_last_mut().set_raw_b(r); }
            assert!(updated::<false>(&b[11..13], &c[11..13], 5, 7, r as u64) && others(&b, &c, 11, 13), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 6 && v as i64 <= (1u64 << 6) as i64 - 1 || 7 == 64 {
                let mut c = b;
                { let mut m = Outer::new(&mut c[..]); m.get_last_mut().set_b(v); }
                assert!(Outer::new(&c[..]).get_last().get_b() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<false>(&b[12..13], 4, 4);
            assert!(s.get_raw_z() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_z() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = Outer::new(&mut c[..]); m.set_z(v); }
            assert!(updated::<false>(&b[12..13], &c[12..13], 4, 4, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Outer::new(&mut c[..]); m.set_raw_z(r); }
            assert!(updated::<false>(&b[12..13], &c[12..13], 4, 4, r as u64) && others(&b, &c, 12, 13), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn arrays() {
        use crate::mixle::*;
        const N: usize = 76;
        assert!(<Arrays<()> as FixedSize>::SIZE == N && SIZE_ARRAYS == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = Arrays::new(&b[..]);
        {
            let a = s.get_u8s();
            assert!(a.len() == 4, "the array has its length");
            assert!(a.get_raw(0) as u8 as u64 == num(false, &b[0..1], 1), "item 0 is read at its place");
            let mut c = b;
            let v: u8 = kani::any();
            { let mut m = Arrays::new(&mut c[..]); m.get_u8s_mut().set_raw(0, v); }
            assert!(others(&b, &c, 0, 1), "the other bytes keep their value");
            assert!(num(false, &c[0..1], 1) == (v as u8 as u64) & mask(8), "item 0 is stored at its place");
        }
        {
            let a = s.get_u8s();
            assert!(a.len() == 4, "the array has its length");
            assert!(a.get_raw(1) as u8 as u64 == num(false, &b[1..2], 1), "item 1 is read at its place");
            let mut c = b;
            let v: u8 = kani::any();
            { let mut m = Arrays::new(&mut c[..]); m.get_u8s_mut().set_raw(1, v); }
            assert!(others(&b, &c, 1, 2), "the other bytes keep their value");
            assert!(num(false, &c[1..2], 1) == (v as u8 as u64) & mask(8), "item 1 is stored at its place");
        }
        {
            let a = s.get_u8s();
            assert!(a.len() == 4, "the array has its length");
            assert!(a.get_raw(2) as u8 as u64 == num(false, &b[2..3], 1), "item 2 is read at its place");
            let mut c = b;
            let v: u8 = kani::any();
            { let mut m = Arrays::new(&mut c[..]); m.get_u8s_mut().set_raw(2, v); }
            assert!(others(&b, &c, 2, 3), "the other bytes keep their value");
            assert!(num(false, &c[2..3], 1) == (v as u8 as u64) & mask(8), "item 2 is stored at its place");
        }
        {
            let a = s.get_u8s();
            assert!(a.len() == 4, "the array has its length");
            assert!(a.get_raw(3) as u8 as u64 == num(false, &b[3..4], 1), "item 3 is read at its place");
            let mut c = b;
            let v: u8 = kani::any();
            { let mut m = Arrays::new(&mut c[..]); m.get_u8s_mut().set_raw(3, v); }
            assert!(others(&b, &c, 3, 4), "the other bytes keep their value");
            assert!(num(false, &c[3..4], 1) == (v as u8 as u64) & mask(8), "item 3 is stored at its place");
        }
        {
            let raw = field::<false>(&b[4..5], 0, 3);
            assert!(s.get_raw_sep() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_sep() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = Arrays::new(&mut c[..]); m.set_sep(v); }
            assert!(updated::<false>(&b[4..5], &c[4..5], 0, 3, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Arrays::new(&mut c[..]); m.set_raw_sep(r); }
            assert!(updated::<false>(&b[4..5], &c[4..5], 0, 3, r as u64) && others(&b, &c, 4, 5), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[4..5], 3, 5);
            assert!(s.get_raw_sep2() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_sep2() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = Arrays::new(&mut c[..]); m.set_sep2(v); }
            assert!(updated::<false>(&b[4..5], &c[4..5], 3, 5, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Arrays::new(&mut c[..]); m.set_raw_sep2(r); }
            assert!(updated::<false>(&b[4..5], &c[4..5], 3, 5, r as u64) && others(&b, &c, 4, 5), "the raw setter replaces the bits of the field only");
        }
        {
            let a = s.get_i16s();
            assert!(a.len() == 3, "the array has its length");
            assert!(a.get_raw(0) as u16 as u64 == num(false, &b[5..7], 2), "item 0 is read at its place");
            let mut c = b;
            let v: i16 = kani::any();
            { let mut m = Arrays::new(&mut c[..]); m.get_i16s_mut().set_raw(0, v); }
            assert!(others(&b, &c, 5, 7), "the other bytes keep their value");
            assert!(num(false, &c[5..7], 2) == (v as u16 as u64) & mask(16), "item 0 is stored at its place");
        }
        {
            let a = s.get_i16s();
            assert!(a.len() == 3, "the array has its length");
            assert!(a.get_raw(1) as u16 as u64 == num(false, &b[7..9], 2), "item 1 is read at its place");
            let mut c = b;
            let v: i16 = kani::any();
            { let mut m = Arrays::new(&mut c[..]); m.get_i16s_mut().set_raw(1, v); }
            assert!(others(&b, &c, 7, 9), "the other bytes keep their value");
            assert!(num(false, &c[7..9], 2) == (v as u16 as u64) & mask(16), "item 1 is stored at its place");
        }
        {
            let a = s.get_i16s();
            assert!(a.len() == 3, "the array has its length");
            assert!(a.get_raw(2) as u16 as u64 == num(false, &b[9..11], 2), "item 2 is read at its place");
            let mut c = b;
            let v: i16 = kani::any();
            { let mut m = Arrays::new(&mut c[..]); m.get_i16s_mut().set_raw(2, v); }
            assert!(others(&b, &c, 9, 11), "the other bytes keep their value");
            assert!(num(false, &c[9..11], 2) == (v as u16 as u64) & mask(16), "item 2 is stored at its place");
        }
        {
            let a = s.get_u24s();
            assert!(a.len() == 2, "the array has its length");
            assert!(a.get_raw(0) as u32 as u64 == num(false, &b[11..14], 3), "item 0 is read at its place");
            let mut c = b;
            let v: u32 = kani::any();
            { let mut m = Arrays::new(&mut c[..]); m.get_u24s_mut().set_raw(0, v); }
            assert!(others(&b, &c, 11, 14), "the other bytes keep their value");
            assert!(num(false, &c[11..14], 3) == (v as u32 as u64) & mask(24), "item 0 is stored at its place");
        }
        {
            let a = s.get_u24s();
            assert!(a.len() == 2, "the array has its length");
            assert!(a.get_raw(1) as u32 as u64 == num(false, &b[14..17], 3), "item 1 is read at its place");
            let mut c = b;
            let v: u32 = kani::any();
            { let mut m = Arrays::new(&mut c[..]); m.get_u24s_mut().set_raw(1, v); }
            assert!(others(&b, &c, 14, 17), "the other bytes keep their value");
            assert!(num(false, &c[14..17], 3) == (v as u32 as u64) & mask(24), "item 1 is stored at its place");
        }
        {
            let a = s.get_f32s();
            assert!(a.len() == 2, "the array has its length");
            assert!(a.get_raw(0).to_bits() as u64 == num(false, &b[17..21], 4), "item 0 is read at its place");
            let mut c = b;
            let v: f32 = kani::any();
            { let mut m = Arrays::new(&mut c[..]); m.get_f32s_mut().set_raw(0, v); }
            assert!(others(&b, &c, 17, 21), "the other bytes keep their value");
            assert!(num(false, &c[17..21], 4) == (v.to_bits() as u64) & mask(32), "item 0 is stored at its place");
        }
        {
            let a = s.get_f32s();
            assert!(a.len() == 2, "the array has its length");
            assert!(a.get_raw(1).to_bits() as u64 == num(false, &b[21..25], 4), "item 1 is read at its place");
            let mut c = b;
            let v: f32 = kani::any();
            { let mut m = Arrays::new(&mut c[..]); m.get_f32s_mut().set_raw(1, v); }
            assert!(others(&b, &c, 21, 25), "the other bytes keep their value");
            assert!(num(false, &c[21..25], 4) == (v.to_bits() as u64) & mask(32), "item 1 is stored at its place");
        }
        {
            let a = s.get_u40s();
            assert!(a.len() == 2, "the array has its length");
            assert!(a.get_raw(0) as u64 as u64 == num(false, &b[25..30], 5), "item 0 is read at its place");
            let mut c = b;
            let v: u64 = kani::any();
            { let mut m = Arrays::new(&mut c[..]); m.get_u40s_mut().set_raw(0, v); }
            assert!(others(&b, &c, 25, 30), "the other bytes keep their value");
            assert!(num(false, &c[25..30], 5) == (v as u64 as u64) & mask(40), "item 0 is stored at its place");
        }
        {
            let a = s.get_u40s();
            assert!(a.len() == 2, "the array has its length");
            assert!(a.get_raw(1) as u64 as u64 == num(false, &b[30..35], 5), "item 1 is read at its place");
            let mut c = b;
            let v: u64 = kani::any();
            { let mut m = Arrays::new(&mut c[..]); m.get_u40s_mut().set_raw(1, v); }
            assert!(others(&b, &c, 30, 35), "the other bytes keep their value");
            assert!(num(false, &c[30..35], 5) == (v as u64 as u64) & mask(40), "item 1 is stored at its place");
        }
        {
            let a = s.get_f64s();
            assert!(a.len() == 2, "the array has its length");
            assert!(a.get_raw(0).to_bits() as u64 == num(false, &b[35..43], 8), "item 0 is read at its place");
            let mut c = b;
            let v: f64 = kani::any();
            { let mut m = Arrays::new(&mut c[..]); m.get_f64s_mut().set_raw(0, v); }
            assert!(others(&b, &c, 35, 43), "the other bytes keep their value");
            assert!(num(false, &c[35..43], 8) == (v.to_bits() as u64) & mask(64), "item 0 is stored at its place");
        }
        {
            let a = s.get_f64s();
            assert!(a.len() == 2, "the array has its length");
            assert!(a.get_raw(1).to_bits() as u64 == num(false, &b[43..51], 8), "item 1 is read at its place");
            let mut c = b;
            let v: f64 = kani::any();
            { let mut m = Arrays::new(&mut c[..]); m.get_f64s_mut().set_raw(1, v); }
            assert!(others(&b, &c, 43, 51), "the other bytes keep their value");
            assert!(num(false, &c[43..51], 8) == (v.to_bits() as u64) & mask(64), "item 1 is stored at its place");
        }
        {
            let a = s.get_i64s();
            assert!(a.len() == 2, "the array has its length");
            assert!(a.get_raw(0) as u64 as u64 == num(false, &b[51..59], 8), "item 0 is read at its place");
            let mut c = b;
            let v: i64 = kani::any();
            { let mut m = Arrays::new(&mut c[..]); m.get_i64s_mut().set_raw(0, v); }
            assert!(others(&b, &c, 51, 59), "the other bytes keep their value");
            assert!(num(false, &c[51..59], 8) == (v as u64 as u64) & mask(64), "item 0 is stored at its place");
        }
        {
            let a = s.get_i64s();
            assert!(a.len() == 2, "the array has its length");
            assert!(a.get_raw(1) as u64 as u64 == num(false, &b[59..67], 8), "item 1 is read at its place");
            let mut c = b;
            let v: i64 = kani::any();
            { let mut m = Arrays::new(&mut c[..]); m.get_i64s_mut().set_raw(1, v); }
            assert!(others(&b, &c, 59, 67), "the other bytes keep their value");
            assert!(num(false, &c[59..67], 8) == (v as u64 as u64) & mask(64), "item 1 is stored at its place");
        }
        {
            let a = s.get_u32s();
            assert!(a.len() == 2, "the array has its length");
            assert!(a.get_raw(0) as u32 as u64 == num(false, &b[67..71], 4), "item 0 is read at its place");
            let mut c = b;
            let v: u32 = kani::any();
            { let mut m = Arrays::new(&mut c[..]); m.get_u32s_mut().set_raw(0, v); }
            assert!(others(&b, &c, 67, 71), "the other bytes keep their value");
            assert!(num(false, &c[67..71], 4) == (v as u32 as u64) & mask(32), "item 0 is stored at its place");
        }
        {
            let a = s.get_u32s();
            assert!(a.len() == 2, "the array has its length");
            assert!(a.get_raw(1) as u32 as u64 == num(false, &b[71..75], 4), "item 1 is read at its place");
            let mut c = b;
            let v: u32 = kani::any();
            { let mut m = Arrays::new(&mut c[..]); m.get_u32s_mut().set_raw(1, v); }
            assert!(others(&b, &c, 71, 75), "the other bytes keep their value");
            assert!(num(false, &c[71..75], 4) == (v as u32 as u64) & mask(32), "item 1 is stored at its place");
        }
        {
            let raw = field::<false>(&b[75..76], 0, 8);
            assert!(s.get_raw_end() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_end() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = Arrays::new(&mut c[..]); m.set_end(v); }
            assert!(updated::<false>(&b[75..76], &c[75..76], 0, 8, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 75, 76), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Arrays::new(&mut c[..]); m.set_raw_end(r); }
            assert!(updated::<false>(&b[75..76], &c[75..76], 0, 8, r as u64) && others(&b, &c, 75, 76), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn bools() {
        use crate::mixle::*;
        const N: usize = 19;
        assert!(<Bools<()> as FixedSize>::SIZE == N && SIZE_BOOLS == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = Bools::new(&b[..]);
        {
            let raw = field::<false>(&b[0..1], 0, 1);
            assert!(s.get_raw_b1() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_b1() == (raw != 0), "the value is true when a bit is set");
            let v: bool = kani::any();
            let bits = v as u64;
            { let mut m = Bools::new(&mut c[..]); m.set_b1(v); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 0, 1, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Bools::new(&mut c[..]); m.set_raw_b1(r); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 0, 1, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[0..1], 1, 3);
            assert!(s.get_raw_b3() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_b3() == (raw != 0), "the value is true when a bit is set");
            let v: bool = kani::any();
            let bits = v as u64;
            { let mut m = Bools::new(&mut c[..]); m.set_b3(v); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 1, 3, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Bools::new(&mut c[..]); m.set_raw_b3(r); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 1, 3, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[0..2], 4, 8);
            assert!(s.get_raw_b8() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_b8() == (raw != 0), "the value is true when a bit is set");
            let v: bool = kani::any();
            let bits = v as u64;
            { let mut m = Bools::new(&mut c[..]); m.set_b8(v); }
            assert!(updated::<false>(&b[0..2], &c[0..2], 4, 8, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Bools::new(&mut c[..]); m.set_raw_b8(r); }
            assert!(updated::<false>(&b[0..2], &c[0..2], 4, 8, r as u64) && others(&b, &c, 0, 2), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[1..3], 4, 12);
            assert!(s.get_raw_b12() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_b12() == (raw != 0), "the value is true when a bit is set");
            let v: bool = kani::any();
            let bits = v as u64;
            { let mut m = Bools::new(&mut c[..]); m.set_b12(v); }
            assert!(updated::<false>(&b[1..3], &c[1..3], 4, 12, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Bools::new(&mut c[..]); m.set_raw_b12(r); }
            assert!(updated::<false>(&b[1..3], &c[1..3], 4, 12, r as u64) && others(&b, &c, 1, 3), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[3..4], 0, 8);
            assert!(s.get_raw_p() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_p() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = Bools::new(&mut c[..]); m.set_p(v); }
            assert!(updated::<false>(&b[3..4], &c[3..4], 0, 8, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Bools::new(&mut c[..]); m.set_raw_p(r); }
            assert!(updated::<false>(&b[3..4], &c[3..4], 0, 8, r as u64) && others(&b, &c, 3, 4), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[4..6], 0, 16);
            assert!(s.get_raw_b16() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_b16() == (raw != 0), "the value is true when a bit is set");
            let v: bool = kani::any();
            let bits = v as u64;
            { let mut m = Bools::new(&mut c[..]); m.set_b16(v); }
            assert!(updated::<false>(&b[4..6], &c[4..6], 0, 16, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Bools::new(&mut c[..]); m.set_raw_b16(r); }
            assert!(updated::<false>(&b[4..6], &c[4..6], 0, 16, r as u64) && others(&b, &c, 4, 6), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[6..10], 0, 32);
            assert!(s.get_raw_b32() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_b32() == (raw != 0), "the value is true when a bit is set");
            let v: bool = kani::any();
            let bits = v as u64;
            { let mut m = Bools::new(&mut c[..]); m.set_b32(v); }
            assert!(updated::<false>(&b[6..10], &c[6..10], 0, 32, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Bools::new(&mut c[..]); m.set_raw_b32(r); }
            assert!(updated::<false>(&b[6..10], &c[6..10], 0, 32, r as u64) && others(&b, &c, 6, 10), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[10..18], 0, 64);
            assert!(s.get_raw_b64() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_b64() == (raw != 0), "the value is true when a bit is set");
            let v: bool = kani::any();
            let bits = v as u64;
            { let mut m = Bools::new(&mut c[..]); m.set_b64(v); }
            assert!(updated::<false>(&b[10..18], &c[10..18], 0, 64, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 18), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Bools::new(&mut c[..]); m.set_raw_b64(r); }
            assert!(updated::<false>(&b[10..18], &c[10..18], 0, 64, r as u64) && others(&b, &c, 10, 18), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[18..19], 0, 1);
            assert!(s.get_raw_last() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_last() == (raw != 0), "the value is true when a bit is set");
            let v: bool = kani::any();
            let bits = v as u64;
            { let mut m = Bools::new(&mut c[..]); m.set_last(v); }
            assert!(updated::<false>(&b[18..19], &c[18..19], 0, 1, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 18, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Bools::new(&mut c[..]); m.set_raw_last(r); }
            assert!(updated::<false>(&b[18..19], &c[18..19], 0, 1, r as u64) && others(&b, &c, 18, 19), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn floats() {
        use crate::mixle::*;
        const N: usize = 25;
        assert!(<Floats<()> as FixedSize>::SIZE == N && SIZE_FLOATS == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = Floats::new(&b[..]);
        {
            let raw = field::<false>(&b[0..4], 0, 32);
            assert!(s.get_raw_f32() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f32().to_bits() as u64 == raw, "the value is the IEEE number with these bits");
            let bits: u64 = kani::any::<u32>() as u64;
            let v = f32::from_bits(bits as u32);
            { let mut m = Floats::new(&mut c[..]); m.set_f32(v); }
            assert!(updated::<false>(&b[0..4], &c[0..4], 0, 32, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Floats::new(&mut c[..]); m.set_raw_f32(r); }
            assert!(updated::<false>(&b[0..4], &c[0..4], 0, 32, r as u64) && others(&b, &c, 0, 4), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[4..12], 0, 64);
            assert!(s.get_raw_f64() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f64().to_bits() as u64 == raw, "the value is the IEEE number with these bits");
            let bits: u64 = kani::any::<u64>() as u64;
            let v = f64::from_bits(bits as u64);
            { let mut m = Floats::new(&mut c[..]); m.set_f64(v); }
            assert!(updated::<false>(&b[4..12], &c[4..12], 0, 64, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 12), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Floats::new(&mut c[..]); m.set_raw_f64(r); }
            assert!(updated::<false>(&b[4..12], &c[4..12], 0, 64, r as u64) && others(&b, &c, 4, 12), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[12..13], 0, 3);
            assert!(s.get_raw_p() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_p() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = Floats::new(&mut c[..]); m.set_p(v); }
            assert!(updated::<false>(&b[12..13], &c[12..13], 0, 3, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Floats::new(&mut c[..]); m.set_raw_p(r); }
            assert!(updated::<false>(&b[12..13], &c[12..13], 0, 3, r as u64) && others(&b, &c, 12, 13), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[12..17], 3, 32);
            assert!(s.get_raw_g32() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_g32().to_bits() as u64 == raw, "the value is the IEEE number with these bits");
            let bits: u64 = kani::any::<u32>() as u64;
            let v = f32::from_bits(bits as u32);
            { let mut m = Floats::new(&mut c[..]); m.set_g32(v); }
            assert!(updated::<false>(&b[12..17], &c[12..17], 3, 32, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 17), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Floats::new(&mut c[..]); m.set_raw_g32(r); }
            assert!(updated::<false>(&b[12..17], &c[12..17], 3, 32, r as u64) && others(&b, &c, 12, 17), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[16..25], 3, 64);
            assert!(s.get_raw_g64() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_g64().to_bits() as u64 == raw, "the value is the IEEE number with these bits");
            let bits: u64 = kani::any::<u64>() as u64;
            let v = f64::from_bits(bits as u64);
            { let mut m = Floats::new(&mut c[..]); m.set_g64(v); }
            assert!(updated::<false>(&b[16..25], &c[16..25], 3, 64, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 25), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Floats::new(&mut c[..]); m.set_raw_g64(r); }
            assert!(updated::<false>(&b[16..25], &c[16..25], 3, 64, r as u64) && others(&b, &c, 16, 25), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn enums() {
        use crate::mixle::*;
        const N: usize = 44;
        assert!(<Enums<()> as FixedSize>::SIZE == N && SIZE_ENUMS == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = Enums::new(&b[..]);
        {
            let raw = field::<false>(&b[0..1], 0, 2);
            assert!(s.get_raw_p() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_p() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = Enums::new(&mut c[..]); m.set_p(v); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 0, 2, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Enums::new(&mut c[..]); m.set_raw_p(r); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 0, 2, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[0..1], 2, 3);
            assert!(s.get_raw_t() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            match s.get_t() {
                Some(v) => assert!(v as u64 == raw && (raw == 0 || raw == 1 || raw == 3 || raw == 7), "the view is the declared variant"),
                None => assert!(!(raw == 0 || raw == 1 || raw == 3 || raw == 7), "every declared variant is recognized"),
            }
            let k: usize = kani::any();
            let (v, bits) = match k { 0 => (Tri::A, 0u64), 1 => (Tri::B, 1u64), 2 => (Tri::D, 3u64), _ => (Tri::H, 7) };
            { let mut m = Enums::new(&mut c[..]); m.set_t(v); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 2, 3, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Enums::new(&mut c[..]); m.set_raw_t(r); }
            assert!(updated::<false>(&b[0..1], &c[0..1], 2, 3, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[0..2], 5, 8);
            assert!(s.get_raw_by() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            match s.get_by() {
                Some(v) => assert!(v as u64 == raw && (raw == 1 || raw == 200), "the view is the declared variant"),
                None => assert!(!(raw == 1 || raw == 200), "every declared variant is recognized"),
            }
            let k: usize = kani::any();
            let (v, bits) = match k { 0 => (Byte::One, 1u64), _ => (Byte::Big, 200) };
            { let mut m = Enums::new(&mut c[..]); m.set_by(v); }
            assert!(updated::<false>(&b[0..2], &c[0..2], 5, 8, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Enums::new(&mut c[..]); m.set_raw_by(r); }
            assert!(updated::<false>(&b[0..2], &c[0..2], 5, 8, r as u64) && others(&b, &c, 0, 2), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[1..2], 5, 3);
            assert!(s.get_raw_q() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_q() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = Enums::new(&mut c[..]); m.set_q(v); }
            assert!(updated::<false>(&b[1..2], &c[1..2], 5, 3, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Enums::new(&mut c[..]); m.set_raw_q(r); }
            assert!(updated::<false>(&b[1..2], &c[1..2], 5, 3, r as u64) && others(&b, &c, 1, 2), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[2..4], 0, 16);
            assert!(s.get_raw_w() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            match s.get_w() {
                Some(v) => assert!(v as u64 == raw && (raw == 5 || raw == 1000 || raw == 65535), "the view is the declared variant"),
                None => assert!(!(raw == 5 || raw == 1000 || raw == 65535), "every declared variant is recognized"),
            }
            let k: usize = kani::any();
            let (v, bits) = match k { 0 => (Wide::Five, 5u64), 1 => (Wide::Thousand, 1000u64), _ => (Wide::Max, 65535) };
            { let mut m = Enums::new(&mut c[..]); m.set_w(v); }
            assert!(updated::<false>(&b[2..4], &c[2..4], 0, 16, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Enums::new(&mut c[..]); m.set_raw_w(r); }
            assert!(updated::<false>(&b[2..4], &c[2..4], 0, 16, r as u64) && others(&b, &c, 2, 4), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[4..5], 0, 8);
            assert!(s.get_raw_t8() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            match s.get_t8() {
                Some(v) => assert!(v as u64 == raw && (raw == 0 || raw == 1 || raw == 3 || raw == 7), "the view is the declared variant"),
                None => assert!(!(raw == 0 || raw == 1 || raw == 3 || raw == 7), "every declared variant is recognized"),
            }
            let k: usize = kani::any();
            let (v, bits) = match k { 0 => (Tri::A, 0u64), 1 => (Tri::B, 1u64), 2 => (Tri::D, 3u64), _ => (Tri::H, 7) };
            { let mut m = Enums::new(&mut c[..]); m.set_t8(v); }
            assert!(updated::<false>(&b[4..5], &c[4..5], 0, 8, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Enums::new(&mut c[..]); m.set_raw_t8(r); }
            assert!(updated::<false>(&b[4..5], &c[4..5], 0, 8, r as u64) && others(&b, &c, 4, 5), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[5..7], 0, 13);
            assert!(s.get_raw_b13() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            match s.get_b13() {
                Some(v) => assert!(v as u64 == raw && (raw == 1 || raw == 200), "the view is the declared variant"),
                None => assert!(!(raw == 1 || raw == 200), "every declared variant is recognized"),
            }
            let k: usize = kani::any();
            let (v, bits) = match k { 0 => (Byte::One, 1u64), _ => (Byte::Big, 200) };
            { let mut m = Enums::new(&mut c[..]); m.set_b13(v); }
            assert!(updated::<false>(&b[5..7], &c[5..7], 0, 13, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Enums::new(&mut c[..]); m.set_raw_b13(r); }
            assert!(updated::<false>(&b[5..7], &c[5..7], 0, 13, r as u64) && others(&b, &c, 5, 7), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[6..7], 5, 3);
            assert!(s.get_raw_r() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_r() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = Enums::new(&mut c[..]); m.set_r(v); }
            assert!(updated::<false>(&b[6..7], &c[6..7], 5, 3, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Enums::new(&mut c[..]); m.set_raw_r(r); }
            assert!(updated::<false>(&b[6..7], &c[6..7], 5, 3, r as u64) && others(&b, &c, 6, 7), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[7..11], 0, 32);
            assert!(s.get_raw_w32() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            match s.get_w32() {
                Some(v) => assert!(v as u64 == raw && (raw == 5 || raw == 1000 || raw == 65535), "the view is the declared variant"),
                None => assert!(!(raw == 5 || raw == 1000 || raw == 65535), "every declared variant is recognized"),
            }
            let k: usize = kani::any();
            let (v, bits) = match k { 0 => (Wide::Five, 5u64), 1 => (Wide::Thousand, 1000u64), _ => (Wide::Max, 65535) };
            { let mut m = Enums::new(&mut c[..]); m.set_w32(v); }
            assert!(updated::<false>(&b[7..11], &c[7..11], 0, 32, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 11), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Enums::new(&mut c[..]); m.set_raw_w32(r); }
            assert!(updated::<false>(&b[7..11], &c[7..11], 0, 32, r as u64) && others(&b, &c, 7, 11), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[11..19], 0, 64);
            assert!(s.get_raw_w64() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            match s.get_w64() {
                Some(v) => assert!(v as u64 == raw && (raw == 5 || raw == 1000 || raw == 65535), "the view is the declared variant"),
                None => assert!(!(raw == 5 || raw == 1000 || raw == 65535), "every declared variant is recognized"),
            }
            let k: usize = kani::any();
            let (v, bits) = match k { 0 => (Wide::Five, 5u64), 1 => (Wide::Thousand, 1000u64), _ => (Wide::Max, 65535) };
            { let mut m = Enums::new(&mut c[..]); m.set_w64(v); }
            assert!(updated::<false>(&b[11..19], &c[11..19], 0, 64, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 11, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Enums::new(&mut c[..]); m.set_raw_w64(r); }
            assert!(updated::<false>(&b[11..19], &c[11..19], 0, 64, r as u64) && others(&b, &c, 11, 19), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[19..23], 0, 32);
            assert!(s.get_raw_h32() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            match s.get_h32() {
                Some(v) => assert!(v as u64 == raw && (raw == 1 || raw == 65537 || raw == 4000000000), "the view is the declared variant"),
                None => assert!(!(raw == 1 || raw == 65537 || raw == 4000000000), "every declared variant is recognized"),
            }
            let k: usize = kani::any();
            let (v, bits) = match k { 0 => (Huge::One, 1u64), 1 => (Huge::Past16, 65537u64), _ => (Huge::Past31, 4000000000) };
            { let mut m = Enums::new(&mut c[..]); m.set_h32(v); }
            assert!(updated::<false>(&b[19..23], &c[19..23], 0, 32, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 19, 23), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Enums::new(&mut c[..]); m.set_raw_h32(r); }
            assert!(updated::<false>(&b[19..23], &c[19..23], 0, 32, r as u64) && others(&b, &c, 19, 23), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[23..28], 0, 37);
            assert!(s.get_raw_h37() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            match s.get_h37() {
                Some(v) => assert!(v as u64 == raw && (raw == 1 || raw == 65537 || raw == 4000000000), "the view is the declared variant"),
                None => assert!(!(raw == 1 || raw == 65537 || raw == 4000000000), "every declared variant is recognized"),
            }
            let k: usize = kani::any();
            let (v, bits) = match k { 0 => (Huge::One, 1u64), 1 => (Huge::Past16, 65537u64), _ => (Huge::Past31, 4000000000) };
            { let mut m = Enums::new(&mut c[..]); m.set_h37(v); }
            assert!(updated::<false>(&b[23..28], &c[23..28], 0, 37, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 23, 28), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Enums::new(&mut c[..]); m.set_raw_h37(r); }
            assert!(updated::<false>(&b[23..28], &c[23..28], 0, 37, r as u64) && others(&b, &c, 23, 28), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[27..28], 5, 3);
            assert!(s.get_raw_s() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_s() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = Enums::new(&mut c[..]); m.set_s(v); }
            assert!(updated::<false>(&b[27..28], &c[27..28], 5, 3, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 27, 28), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Enums::new(&mut c[..]); m.set_raw_s(r); }
            assert!(updated::<false>(&b[27..28], &c[27..28], 5, 3, r as u64) && others(&b, &c, 27, 28), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[28..36], 0, 64);
            assert!(s.get_raw_h64() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            match s.get_h64() {
                Some(v) => assert!(v as u64 == raw && (raw == 1 || raw == 65537 || raw == 4000000000), "the view is the declared variant"),
                None => assert!(!(raw == 1 || raw == 65537 || raw == 4000000000), "every declared variant is recognized"),
            }
            let k: usize = kani::any();
            let (v, bits) = match k { 0 => (Huge::One, 1u64), 1 => (Huge::Past16, 65537u64), _ => (Huge::Past31, 4000000000) };
            { let mut m = Enums::new(&mut c[..]); m.set_h64(v); }
            assert!(updated::<false>(&b[28..36], &c[28..36], 0, 64, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 28, 36), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Enums::new(&mut c[..]); m.set_raw_h64(r); }
            assert!(updated::<false>(&b[28..36], &c[28..36], 0, 64, r as u64) && others(&b, &c, 28, 36), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<false>(&b[36..44], 0, 64);
            assert!(s.get_raw_g64() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            match s.get_g64() {
                Some(v) => assert!(v as u64 == raw && (raw == 0 || raw == 4294967297 || raw == 4611686018427387904), "the view is the declared variant"),
                None => assert!(!(raw == 0 || raw == 4294967297 || raw == 4611686018427387904), "every declared variant is recognized"),
            }
            let k: usize = kani::any();
            let (v, bits) = match k { 0 => (Giant::Zero, 0u64), 1 => (Giant::Past32, 4294967297u64), _ => (Giant::Past62, 4611686018427387904) };
            { let mut m = Enums::new(&mut c[..]); m.set_g64(v); }
            assert!(updated::<false>(&b[36..44], &c[36..44], 0, 64, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 36, 44), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Enums::new(&mut c[..]); m.set_raw_g64(r); }
            assert!(updated::<false>(&b[36..44], &c[36..44], 0, 64, r as u64) && others(&b, &c, 36, 44), "the raw setter replaces the bits of the field only");
        }
    }
    /// known finding: items of an array of signed integers of 24 bits are not sign extended
    #[kani::proof]
    fn known_signed_array() {
        use crate::mixle::*;
        let b: [u8; 7] = kani::any();
        let s = Narrow::new(&b[..]);
        assert!(s.get_i24s().get_raw(0) as i64 == (num(false, &b[0..3], 3) << 40) as i64 >> 40, "items of signed arrays keep their sign");
    }
}
#[cfg(feature = "mix")]
mod mixbe {
    use crate::spec::*;
    use bp3d_proto::util::FixedSize;
    #[kani::proof]
    fn inner() {
        use crate::mixbe::*;
        const N: usize = 2;
        assert!(<Inner<()> as FixedSize>::SIZE == N && SIZE_INNER == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = Inner::new(&b[..]);
        {
            let raw = field::<true>(&b[0..1], 0, 5);
            assert!(s.get_raw_a() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_a() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = Inner::new(&mut c[..]); m.set_a(v); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 0, 5, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Inner::new(&mut c[..]); m.set_raw_a(r); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 0, 5, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[0..2], 5, 7);
            assert!(s.get_raw_b() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 57) as i64) >> 57;
            assert!(s.get_b() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = Inner::new(&mut c[..]); m.set_b(v); }
            assert!(updated::<true>(&b[0..2], &c[0..2], 5, 7, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Inner::new(&mut c[..]); m.set_raw_b(r); }
            assert!(updated::<true>(&b[0..2], &c[0..2], 5, 7, r as u64) && others(&b, &c, 0, 2), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 6 && v as i64 <= (1u64 << 6) as i64 - 1 || 7 == 64 {
                let mut c = b;
                { let mut m = Inner::new(&mut c[..]); m.set_b(v); }
                assert!(Inner::new(&c[..]).get_b() == v, "a value in the range of the field is given back");
            }
        }
    }
    #[kani::proof]
    fn mid() {
        use crate::mixbe::*;
        const N: usize = 3;
        assert!(<Mid<()> as FixedSize>::SIZE == N && SIZE_MID == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = Mid::new(&b[..]);
        {
            let raw = field::<true>(&b[0..1], 0, 8);
            assert!(s.get_raw_x() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_x() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = Mid::new(&mut c[..]); m.set_x(v); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 0, 8, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Mid::new(&mut c[..]); m.set_raw_x(r); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 0, 8, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[1..2], 0, 5);
            assert!(s.get_inner().get_raw_a() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_inner().get_a() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = Mid::new(&mut c[..]); m.get_inner_mut().set_a(v); }
            assert!(updated::<true>(&b[1..2], &c[1..2], 0, 5, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Mid::new(&mut c[..]); m.get_inner_mut().set_raw_a(r); }
            assert!(updated::<true>(&b[1..2], &c[1..2], 0, 5, r as u64) && others(&b, &c, 1, 2), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[1..3], 5, 7);
            assert!(s.get_inner().get_raw_b() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 57) as i64) >> 57;
            assert!(s.get_inner().get_b() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = Mid::new(&mut c[..]); m.get_inner_mut().set_b(v); }
            assert!(updated::<true>(&b[1..3], &c[1..3], 5, 7, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Mid::new(&mut c[..]); m.get_inner_mut().set_raw_b(r); }
            assert!(updated::<true>(&b[1..3], &c[1..3], 5, 7, r as u64) && others(&b, &c, 1, 3), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 6 && v as i64 <= (1u64 << 6) as i64 - 1 || 7 == 64 {
                let mut c = b;
                { let mut m = Mid::new(&mut c[..]); m.get_inner_mut().set_b(v); }
                assert!(Mid::new(&c[..]).get_inner().get_b() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[2..3], 4, 4);
            assert!(s.get_raw_tail() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_tail() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = Mid::new(&mut c[..]); m.set_tail(v); }
            assert!(updated::<true>(&b[2..3], &c[2..3], 4, 4, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Mid::new(&mut c[..]); m.set_raw_tail(r); }
            assert!(updated::<true>(&b[2..3], &c[2..3], 4, 4, r as u64) && others(&b, &c, 2, 3), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn outer() {
        use crate::mixbe::*;
        const N: usize = 13;
        assert!(<Outer<()> as FixedSize>::SIZE == N && SIZE_OUTER == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = Outer::new(&b[..]);
        {
            let raw = field::<true>(&b[0..2], 0, 16);
            assert!(s.get_raw_h() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_h() as u64 == raw, "the value is the bits of the field");
            let v: u16 = kani::any();
            let bits = v as u64;
            { let mut m = Outer::new(&mut c[..]); m.set_h(v); }
            assert!(updated::<true>(&b[0..2], &c[0..2], 0, 16, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Outer::new(&mut c[..]); m.set_raw_h(r); }
            assert!(updated::<true>(&b[0..2], &c[0..2], 0, 16, r as u64) && others(&b, &c, 0, 2), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[2..3], 0, 8);
            assert!(s.get_mid().get_raw_x() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_mid().get_x() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = Outer::new(&mut c[..]); m.get_mid_mut().set_x(v); }
            assert!(updated::<true>(&b[2..3], &c[2..3], 0, 8, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Outer::new(&mut c[..]); m.get_mid_mut().set_raw_x(r); }
            assert!(updated::<true>(&b[2..3], &c[2..3], 0, 8, r as u64) && others(&b, &c, 2, 3), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[3..4], 0, 5);
            assert!(s.get_mid().get_inner().get_raw_a() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_mid().get_inner().get_a() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = Outer::new(&mut c[..]); m.get_mid_mut().get_inner_mut().set_a(v); }
            assert!(updated::<true>(&b[3..4], &c[3..4], 0, 5, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Outer::new(&mut c[..]); m.get_mid_mut().get_inner_mut().set_raw_a(r); }
            assert!(updated::<true>(&b[3..4], &c[3..4], 0, 5, r as u64) && others(&b, &c, 3, 4), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[3..5], 5, 7);
            assert!(s.get_mid().get_inner().get_raw_b() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 57) as i64) >> 57;
            assert!(s.get_mid().get_inner().get_b() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = Outer::new(&mut c[..]); m.get_mid_mut().get_inner_mut().set_b(v); }
            assert!(updated::<true>(&b[3..5], &c[3..5], 5, 7, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Outer::new(&mut c[..]); m.get_mid_mut().get_inner_mut().set_raw_b(r); }
            assert!(updated::<true>(&b[3..5], &c[3..5], 5, 7, r as u64) && others(&b, &c, 3, 5), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 6 && v as i64 <= (1u64 << 6) as i64 - 1 || 7 == 64 {
                let mut c = b;
                { let mut m = Outer::new(&mut c[..]); m.get_mid_mut().get_inner_mut().set_b(v); }
                assert!(Outer::new(&c[..]).get_mid().get_inner().get_b() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[4..5], 4, 4);
            assert!(s.get_mid().get_raw_tail() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_mid().get_tail() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = Outer::new(&mut c[..]); m.get_mid_mut().set_tail(v); }
            assert!(updated::<true>(&b[4..5], &c[4..5], 4, 4, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Outer::new(&mut c[..]); m.get_mid_mut().set_raw_tail(r); }
            assert!(updated::<true>(&b[4..5], &c[4..5], 4, 4, r as u64) && others(&b, &c, 4, 5), "the raw setter replaces the bits of the field only");
        }
        {
            let a = s.get_arr();
            assert!(a.len() == 3, "the array has its length");
            assert!(a.get_raw(0) as u16 as u64 == num(true, &b[5..7], 2), "item 0 is read at its place");
            let mut c = b;
            let v: u16 = kani::any();
            { let mut m = Outer::new(&mut c[..]); m.get_arr_mut().set_raw(0, v); }
            assert!(others(&b, &c, 5, 7), "the other bytes keep their value");
            assert!(num(true, &c[5..7], 2) == (v as u16 as u64) & mask(16), "item 0 is stored at its place");
        }
        {
            let a = s.get_arr();
            assert!(a.len() == 3, "the array has its length");
            assert!(a.get_raw(1) as u16 as u64 == num(true, &b[7..9], 2), "item 1 is read at its place");
            let mut c = b;
            let v: u16 = kani::any();
            { let mut m = Outer::new(&mut c[..]); m.get_arr_mut().set_raw(1, v); }
            assert!(others(&b, &c, 7, 9), "the other bytes keep their value");
            assert!(num(true, &c[7..9], 2) == (v as u16 as u64) & mask(16), "item 1 is stored at its place");
        }
        {
            let a = s.get_arr();
            assert!(a.len() == 3, "the array has its length");
            assert!(a.get_raw(2) as u16 as u64 == num(true, &b[9..11], 2), "item 2 is read at its place");
            let mut c = b;
            let v: u16 = kani::any();
            { let mut m = Outer::new(&mut c[..]); m.get_arr_mut().set_raw(2, v); }
            assert!(others(&b, &c, 9, 11), "the other bytes keep their value");
            assert!(num(true, &c[9..11], 2) == (v as u16 as u64) & mask(16), "item 2 is stored at its place");
        }
        {
            let raw = field::<true>(&b[11..12], 0, 5);
            assert!(s.get_last().get_raw_a() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_last().get_a() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = Outer::new(&mut c[..]); m.get_last_mut().set_a(v); }
            assert!(updated::<true>(&b[11..12], &c[11..12], 0, 5, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 11, 12), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Outer::new(&mut c[..]); m.get_last_mut().set_raw_a(r); }
            assert!(updated::<true>(&b[11..12], &c[11..12], 0, 5, r as u64) && others(&b, &c, 11, 12), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[11..13], 5, 7);
            assert!(s.get_last().get_raw_b() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            let want = ((raw << 57) as i64) >> 57;
            assert!(s.get_last().get_b() as i64 == want, "the value is the two's complement of the bits");
            let v: i8 = kani::any();
            let bits = v as i64 as u64;
            { let mut m = Outer::new(&mut c[..]); m.get_last_mut().set_b(v); }
            assert!(updated::<true>(&b[11..13], &c[11..13], 5, 7, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 11, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Outer::new(&mut c[..]); m.get_last_mut().set_raw_b(r); }
            assert!(updated::<true>(&b[11..13], &c[11..13], 5, 7, r as u64) && others(&b, &c, 11, 13), "the raw setter replaces the bits of the field only");
            if v as i64 >= -1i64 << 6 && v as i64 <= (1u64 << 6) as i64 - 1 || 7 == 64 {
                let mut c = b;
                { let mut m = Outer::new(&mut c[..]); m.get_last_mut().set_b(v); }
                assert!(Outer::new(&c[..]).get_last().get_b() == v, "a value in the range of the field is given back");
            }
        }
        {
            let raw = field::<true>(&b[12..13], 4, 4);
            assert!(s.get_raw_z() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_z() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = Outer::new(&mut c[..]); m.set_z(v); }
            assert!(updated::<true>(&b[12..13], &c[12..13], 4, 4, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Outer::new(&mut c[..]); m.set_raw_z(r); }
            assert!(updated::<true>(&b[12..13], &c[12..13], 4, 4, r as u64) && others(&b, &c, 12, 13), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn arrays() {
        use crate::mixbe::*;
        const N: usize = 76;
        assert!(<Arrays<()> as FixedSize>::SIZE == N && SIZE_ARRAYS == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = Arrays::new(&b[..]);
        {
            let a = s.get_u8s();
            assert!(a.len() == 4, "the array has its length");
            assert!(a.get_raw(0) as u8 as u64 == num(true, &b[0..1], 1), "item 0 is read at its place");
            let mut c = b;
            let v: u8 = kani::any();
            { let mut m = Arrays::new(&mut c[..]); m.get_u8s_mut().set_raw(0, v); }
            assert!(others(&b, &c, 0, 1), "the other bytes keep their value");
            assert!(num(true, &c[0..1], 1) == (v as u8 as u64) & mask(8), "item 0 is stored at its place");
        }
        {
            let a = s.get_u8s();
            assert!(a.len() == 4, "the array has its length");
            assert!(a.get_raw(1) as u8 as u64 == num(true, &b[1..2], 1), "item 1 is read at its place");
            let mut c = b;
            let v: u8 = kani::any();
            { let mut m = Arrays::new(&mut c[..]); m.get_u8s_mut().set_raw(1, v); }
            assert!(others(&b, &c, 1, 2), "the other bytes keep their value");
            assert!(num(true, &c[1..2], 1) == (v as u8 as u64) & mask(8), "item 1 is stored at its place");
        }
        {
            let a = s.get_u8s();
            assert!(a.len() == 4, "the array has its length");
            assert!(a.get_raw(2) as u8 as u64 == num(true, &b[2..3], 1), "item 2 is read at its place");
            let mut c = b;
            let v: u8 = kani::any();
            { let mut m = Arrays::new(&mut c[..]); m.get_u8s_mut().set_raw(2, v); }
            assert!(others(&b, &c, 2, 3), "the other bytes keep their value");
            assert!(num(true, &c[2..3], 1) == (v as u8 as u64) & mask(8), "item 2 is stored at its place");
        }
        {
            let a = s.get_u8s();
            assert!(a.len() == 4, "the array has its length");
            assert!(a.get_raw(3) as u8 as u64 == num(true, &b[3..4], 1), "item 3 is read at its place");
            let mut c = b;
            let v: u8 = kani::any();
            { let mut m = Arrays::new(&mut c[..]); m.get_u8s_mut().set_raw(3, v); }
            assert!(others(&b, &c, 3, 4), "the other bytes keep their value");
            assert!(num(true, &c[3..4], 1) == (v as u8 as u64) & mask(8), "item 3 is stored at its place");
        }
        {
            let raw = field::<true>(&b[4..5], 0, 3);
            assert!(s.get_raw_sep() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_sep() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = Arrays::new(&mut c[..]); m.set_sep(v); }
            assert!(updated::<true>(&b[4..5], &c[4..5], 0, 3, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Arrays::new(&mut c[..]); m.set_raw_sep(r); }
            assert!(updated::<true>(&b[4..5], &c[4..5], 0, 3, r as u64) && others(&b, &c, 4, 5), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[4..5], 3, 5);
            assert!(s.get_raw_sep2() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_sep2() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = Arrays::new(&mut c[..]); m.set_sep2(v); }
            assert!(updated::<true>(&b[4..5], &c[4..5], 3, 5, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Arrays::new(&mut c[..]); m.set_raw_sep2(r); }
            assert!(updated::<true>(&b[4..5], &c[4..5], 3, 5, r as u64) && others(&b, &c, 4, 5), "the raw setter replaces the bits of the field only");
        }
        {
            let a = s.get_i16s();
            assert!(a.len() == 3, "the array has its length");
            assert!(a.get_raw(0) as u16 as u64 == num(true, &b[5..7], 2), "item 0 is read at its place");
            let mut c = b;
            let v: i16 = kani::any();
            { let mut m = Arrays::new(&mut c[..]); m.get_i16s_mut().set_raw(0, v); }
            assert!(others(&b, &c, 5, 7), "the other bytes keep their value");
            assert!(num(true, &c[5..7], 2) == (v as u16 as u64) & mask(16), "item 0 is stored at its place");
        }
        {
            let a = s.get_i16s();
            assert!(a.len() == 3, "the array has its length");
            assert!(a.get_raw(1) as u16 as u64 == num(true, &b[7..9], 2), "item 1 is read at its place");
            let mut c = b;
            let v: i16 = kani::any();
            { let mut m = Arrays::new(&mut c[..]); m.get_i16s_mut().set_raw(1, v); }
            assert!(others(&b, &c, 7, 9), "the other bytes keep their value");
            assert!(num(true, &c[7..9], 2) == (v as u16 as u64) & mask(16), "item 1 is stored at its place");
        }
        {
            let a = s.get_i16s();
            assert!(a.len() == 3, "the array has its length");
            assert!(a.get_raw(2) as u16 as u64 == num(true, &b[9..11], 2), "item 2 is read at its place");
            let mut c = b;
            let v: i16 = kani::any();
            { let mut m = Arrays::new(&mut c[..]); m.get_i16s_mut().set_raw(2, v); }
            assert!(others(&b, &c, 9, 11), "the other bytes keep their value");
            assert!(num(true, &c[9..11], 2) == (v as u16 as u64) & mask(16), "item 2 is stored at its place");
        }
        {
            let a = s.get_u24s();
            assert!(a.len() == 2, "the array has its length");
            assert!(a.get_raw(0) as u32 as u64 == num(true, &b[11..14], 3), "item 0 is read at its place");
            let mut c = b;
            let v: u32 = kani::any();
            { let mut m = Arrays::new(&mut c[..]); m.get_u24s_mut().set_raw(0, v); }
            assert!(others(&b, &c, 11, 14), "the other bytes keep their value");
            assert!(num(true, &c[11..14], 3) == (v as u32 as u64) & mask(24), "item 0 is stored at its place");
        }
        {
            let a = s.get_u24s();
            assert!(a.len() == 2, "the array has its length");
            assert!(a.get_raw(1) as u32 as u64 == num(true, &b[14..17], 3), "item 1 is read at its place");
            let mut c = b;
            let v: u32 = kani::any();
            { let mut m = Arrays::new(&mut c[..]); m.get_u24s_mut().set_raw(1, v); }
            assert!(others(&b, &c, 14, 17), "the other bytes keep their value");
            assert!(num(true, &c[14..17], 3) == (v as u32 as u64) & mask(24), "item 1 is stored at its place");
        }
        {
            let a = s.get_f32s();
            assert!(a.len() == 2, "the array has its length");
            assert!(a.get_raw(0).to_bits() as u64 == num(true, &b[17..21], 4), "item 0 is read at its place");
            let mut c = b;
            let v: f32 = kani::any();
            { let mut m = Arrays::new(&mut c[..]); m.get_f32s_mut().set_raw(0, v); }
            assert!(others(&b, &c, 17, 21), "the other bytes keep their value");
            assert!(num(true, &c[17..21], 4) == (v.to_bits() as u64) & mask(32), "item 0 is stored at its place");
        }
        {
            let a = s.get_f32s();
            assert!(a.len() == 2, "the array has its length");
            assert!(a.get_raw(1).to_bits() as u64 == num(true, &b[21..25], 4), "item 1 is read at its place");
            let mut c = b;
            let v: f32 = kani::any();
            { let mut m = Arrays::new(&mut c[..]); m.get_f32s_mut().set_raw(1, v); }
            assert!(others(&b, &c, 21, 25), "the other bytes keep their value");
            assert!(num(true, &c[21..25], 4) == (v.to_bits() as u64) & mask(32), "item 1 is stored at its place");
        }
        {
            let a = s.get_u40s();
            assert!(a.len() == 2, "the array has its length");
            assert!(a.get_raw(0) as u64 as u64 == num(true, &b[25..30], 5), "item 0 is read at its place");
            let mut c = b;
            let v: u64 = kani::any();
            { let mut m = Arrays::new(&mut c[..]); m.get_u40s_mut().set_raw(0, v); }
            assert!(others(&b, &c, 25, 30), "the other bytes keep their value");
            assert!(num(true, &c[25..30], 5) == (v as u64 as u64) & mask(40), "item 0 is stored at its place");
        }
        {
            let a = s.get_u40s();
            assert!(a.len() == 2, "the array has its length");
            assert!(a.get_raw(1) as u64 as u64 == num(true, &b[30..35], 5), "item 1 is read at its place");
            let mut c = b;
            let v: u64 = kani::any();
            { let mut m = Arrays::new(&mut c[..]); m.get_u40s_mut().set_raw(1, v); }
            assert!(others(&b, &c, 30, 35), "the other bytes keep their value");
            assert!(num(true, &c[30..35], 5) == (v as u64 as u64) & mask(40), "item 1 is stored at its place");
        }
        {
            let a = s.get_f64s();
            assert!(a.len() == 2, "the array has its length");
            assert!(a.get_raw(0).to_bits() as u64 == num(true, &b[35..43], 8), "item 0 is read at its place");
            let mut c = b;
            let v: f64 = kani::any();
            { let mut m = Arrays::new(&mut c[..]); m.get_f64s_mut().set_raw(0, v); }
            assert!(others(&b, &c, 35, 43), "the other bytes keep their value");
            assert!(num(true, &c[35..43], 8) == (v.to_bits() as u64) & mask(64), "item 0 is stored at its place");
        }
        {
            let a = s.get_f64s();
            assert!(a.len() == 2, "the array has its length");
            assert!(a.get_raw(1).to_bits() as u64 == num(true, &b[43..51], 8), "item 1 is read at its place");
            let mut c = b;
            let v: f64 = kani::any();
            { let mut m = Arrays::new(&mut c[..]); m.get_f64s_mut().set_raw(1, v); }
            assert!(others(&b, &c, 43, 51), "the other bytes keep their value");
            assert!(num(true, &c[43..51], 8) == (v.to_bits() as u64) & mask(64), "item 1 is stored at its place");
        }
        {
            let a = s.get_i64s();
            assert!(a.len() == 2, "the array has its length");
            assert!(a.get_raw(0) as u64 as u64 == num(true, &b[51..59], 8), "item 0 is read at its place");
            let mut c = b;
            let v: i64 = kani::any();
            { let mut m = Arrays::new(&mut c[..]); m.get_i64s_mut().set_raw(0, v); }
            assert!(others(&b, &c, 51, 59), "the other bytes keep their value");
            assert!(num(true, &c[51..59], 8) == (v as u64 as u64) & mask(64), "item 0 is stored at its place");
        }
        {
            let a = s.get_i64s();
            assert!(a.len() == 2, "the array has its length");
            assert!(a.get_raw(1) as u64 as u64 == num(true, &b[59..67], 8), "item 1 is read at its place");
            let mut c = b;
            let v: i64 = kani::any();
            { let mut m = Arrays::new(&mut c[..]); m.get_i64s_mut().set_raw(1, v); }
            assert!(others(&b, &c, 59, 67), "the other bytes keep their value");
            assert!(num(true, &c[59..67], 8) == (v as u64 as u64) & mask(64), "item 1 is stored at its place");
        }
        {
            let a = s.get_u32s();
            assert!(a.len() == 2, "the array has its length");
            assert!(a.get_raw(0) as u32 as u64 == num(true, &b[67..71], 4), "item 0 is read at its place");
            let mut c = b;
            let v: u32 = kani::any();
            { let mut m = Arrays::new(&mut c[..]); m.get_u32s_mut().set_raw(0, v); }
            assert!(others(&b, &c, 67, 71), "the other bytes keep their value");
            assert!(num(true, &c[67..71], 4) == (v as u32 as u64) & mask(32), "item 0 is stored at its place");
        }
        {
            let a = s.get_u32s();
            assert!(a.len() == 2, "the array has its length");
            assert!(a.get_raw(1) as u32 as u64 == num(true, &b[71..75], 4), "item 1 is read at its place");
            let mut c = b;
            let v: u32 = kani::any();
            { let mut m = Arrays::new(&mut c[..]); m.get_u32s_mut().set_raw(1, v); }
            assert!(others(&b, &c, 71, 75), "the other bytes keep their value");
            assert!(num(true, &c[71..75], 4) == (v as u32 as u64) & mask(32), "item 1 is stored at its place");
        }
        {
            let raw = field::<true>(&b[75..76], 0, 8);
            assert!(s.get_raw_end() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_end() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = Arrays::new(&mut c[..]); m.set_end(v); }
            assert!(updated::<true>(&b[75..76], &c[75..76], 0, 8, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 75, 76), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Arrays::new(&mut c[..]); m.set_raw_end(r); }
            assert!(updated::<true>(&b[75..76], &c[75..76], 0, 8, r as u64) && others(&b, &c, 75, 76), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn bools() {
        use crate::mixbe::*;
        const N: usize = 19;
        assert!(<Bools<()> as FixedSize>::SIZE == N && SIZE_BOOLS == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = Bools::new(&b[..]);
        {
            let raw = field::<true>(&b[0..1], 0, 1);
            assert!(s.get_raw_b1() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_b1() == (raw != 0), "the value is true when a bit is set");
            let v: bool = kani::any();
            let bits = v as u64;
            { let mut m = Bools::new(&mut c[..]); m.set_b1(v); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 0, 1, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Bools::new(&mut c[..]); m.set_raw_b1(r); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 0, 1, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[0..1], 1, 3);
            assert!(s.get_raw_b3() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_b3() == (raw != 0), "the value is true when a bit is set");
            let v: bool = kani::any();
            let bits = v as u64;
            { let mut m = Bools::new(&mut c[..]); m.set_b3(v); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 1, 3, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Bools::new(&mut c[..]); m.set_raw_b3(r); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 1, 3, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[0..2], 4, 8);
            assert!(s.get_raw_b8() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_b8() == (raw != 0), "the value is true when a bit is set");
            let v: bool = kani::any();
            let bits = v as u64;
            { let mut m = Bools::new(&mut c[..]); m.set_b8(v); }
            assert!(updated::<true>(&b[0..2], &c[0..2], 4, 8, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Bools::new(&mut c[..]); m.set_raw_b8(r); }
            assert!(updated::<true>(&b[0..2], &c[0..2], 4, 8, r as u64) && others(&b, &c, 0, 2), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[1..3], 4, 12);
            assert!(s.get_raw_b12() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_b12() == (raw != 0), "the value is true when a bit is set");
            let v: bool = kani::any();
            let bits = v as u64;
            { let mut m = Bools::new(&mut c[..]); m.set_b12(v); }
            assert!(updated::<true>(&b[1..3], &c[1..3], 4, 12, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 3), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Bools::new(&mut c[..]); m.set_raw_b12(r); }
            assert!(updated::<true>(&b[1..3], &c[1..3], 4, 12, r as u64) && others(&b, &c, 1, 3), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[3..4], 0, 8);
            assert!(s.get_raw_p() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_p() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = Bools::new(&mut c[..]); m.set_p(v); }
            assert!(updated::<true>(&b[3..4], &c[3..4], 0, 8, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 3, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Bools::new(&mut c[..]); m.set_raw_p(r); }
            assert!(updated::<true>(&b[3..4], &c[3..4], 0, 8, r as u64) && others(&b, &c, 3, 4), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[4..6], 0, 16);
            assert!(s.get_raw_b16() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_b16() == (raw != 0), "the value is true when a bit is set");
            let v: bool = kani::any();
            let bits = v as u64;
            { let mut m = Bools::new(&mut c[..]); m.set_b16(v); }
            assert!(updated::<true>(&b[4..6], &c[4..6], 0, 16, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 6), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Bools::new(&mut c[..]); m.set_raw_b16(r); }
            assert!(updated::<true>(&b[4..6], &c[4..6], 0, 16, r as u64) && others(&b, &c, 4, 6), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[6..10], 0, 32);
            assert!(s.get_raw_b32() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_b32() == (raw != 0), "the value is true when a bit is set");
            let v: bool = kani::any();
            let bits = v as u64;
            { let mut m = Bools::new(&mut c[..]); m.set_b32(v); }
            assert!(updated::<true>(&b[6..10], &c[6..10], 0, 32, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 10), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Bools::new(&mut c[..]); m.set_raw_b32(r); }
            assert!(updated::<true>(&b[6..10], &c[6..10], 0, 32, r as u64) && others(&b, &c, 6, 10), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[10..18], 0, 64);
            assert!(s.get_raw_b64() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_b64() == (raw != 0), "the value is true when a bit is set");
            let v: bool = kani::any();
            let bits = v as u64;
            { let mut m = Bools::new(&mut c[..]); m.set_b64(v); }
            assert!(updated::<true>(&b[10..18], &c[10..18], 0, 64, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 10, 18), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Bools::new(&mut c[..]); m.set_raw_b64(r); }
            assert!(updated::<true>(&b[10..18], &c[10..18], 0, 64, r as u64) && others(&b, &c, 10, 18), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[18..19], 0, 1);
            assert!(s.get_raw_last() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_last() == (raw != 0), "the value is true when a bit is set");
            let v: bool = kani::any();
            let bits = v as u64;
            { let mut m = Bools::new(&mut c[..]); m.set_last(v); }
            assert!(updated::<true>(&b[18..19], &c[18..19], 0, 1, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 18, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Bools::new(&mut c[..]); m.set_raw_last(r); }
            assert!(updated::<true>(&b[18..19], &c[18..19], 0, 1, r as u64) && others(&b, &c, 18, 19), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn floats() {
        use crate::mixbe::*;
        const N: usize = 25;
        assert!(<Floats<()> as FixedSize>::SIZE == N && SIZE_FLOATS == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = Floats::new(&b[..]);
        {
            let raw = field::<true>(&b[0..4], 0, 32);
            assert!(s.get_raw_f32() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f32().to_bits() as u64 == raw, "the value is the IEEE number with these bits");
            let bits: u64 = kani::any::<u32>() as u64;
            let v = f32::from_bits(bits as u32);
            { let mut m = Floats::new(&mut c[..]); m.set_f32(v); }
            assert!(updated::<true>(&b[0..4], &c[0..4], 0, 32, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Floats::new(&mut c[..]); m.set_raw_f32(r); }
            assert!(updated::<true>(&b[0..4], &c[0..4], 0, 32, r as u64) && others(&b, &c, 0, 4), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[4..12], 0, 64);
            assert!(s.get_raw_f64() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_f64().to_bits() as u64 == raw, "the value is the IEEE number with these bits");
            let bits: u64 = kani::any::<u64>() as u64;
            let v = f64::from_bits(bits as u64);
            { let mut m = Floats::new(&mut c[..]); m.set_f64(v); }
            assert!(updated::<true>(&b[4..12], &c[4..12], 0, 64, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 12), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Floats::new(&mut c[..]); m.set_raw_f64(r); }
            assert!(updated::<true>(&b[4..12], &c[4..12], 0, 64, r as u64) && others(&b, &c, 4, 12), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[12..13], 0, 3);
            assert!(s.get_raw_p() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_p() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = Floats::new(&mut c[..]); m.set_p(v); }
            assert!(updated::<true>(&b[12..13], &c[12..13], 0, 3, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 13), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Floats::new(&mut c[..]); m.set_raw_p(r); }
            assert!(updated::<true>(&b[12..13], &c[12..13], 0, 3, r as u64) && others(&b, &c, 12, 13), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[12..17], 3, 32);
            assert!(s.get_raw_g32() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_g32().to_bits() as u64 == raw, "the value is the IEEE number with these bits");
            let bits: u64 = kani::any::<u32>() as u64;
            let v = f32::from_bits(bits as u32);
            { let mut m = Floats::new(&mut c[..]); m.set_g32(v); }
            assert!(updated::<true>(&b[12..17], &c[12..17], 3, 32, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 12, 17), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Floats::new(&mut c[..]); m.set_raw_g32(r); }
            assert!(updated::<true>(&b[12..17], &c[12..17], 3, 32, r as u64) && others(&b, &c, 12, 17), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[16..25], 3, 64);
            assert!(s.get_raw_g64() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_g64().to_bits() as u64 == raw, "the value is the IEEE number with these bits");
            let bits: u64 = kani::any::<u64>() as u64;
            let v = f64::from_bits(bits as u64);
            { let mut m = Floats::new(&mut c[..]); m.set_g64(v); }
            assert!(updated::<true>(&b[16..25], &c[16..25], 3, 64, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 16, 25), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Floats::new(&mut c[..]); m.set_raw_g64(r); }
            assert!(updated::<true>(&b[16..25], &c[16..25], 3, 64, r as u64) && others(&b, &c, 16, 25), "the raw setter replaces the bits of the field only");
        }
    }
    #[kani::proof]
    fn enums() {
        use crate::mixbe::*;
        const N: usize = 44;
        assert!(<Enums<()> as FixedSize>::SIZE == N && SIZE_ENUMS == N, "the size of the structure is the sum of its fields");
        let b: [u8; N] = kani::any();
        let s = Enums::new(&b[..]);
        {
            let raw = field::<true>(&b[0..1], 0, 2);
            assert!(s.get_raw_p() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_p() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = Enums::new(&mut c[..]); m.set_p(v); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 0, 2, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Enums::new(&mut c[..]); m.set_raw_p(r); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 0, 2, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[0..1], 2, 3);
            assert!(s.get_raw_t() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            match s.get_t() {
                Some(v) => assert!(v as u64 == raw && (raw == 0 || raw == 1 || raw == 3 || raw == 7), "the view is the declared variant"),
                None => assert!(!(raw == 0 || raw == 1 || raw == 3 || raw == 7), "every declared variant is recognized"),
            }
            let k: usize = kani::any();
            let (v, bits) = match k { 0 => (Tri::A, 0u64), 1 => (Tri::B, 1u64), 2 => (Tri::D, 3u64), _ => (Tri::H, 7) };
            { let mut m = Enums::new(&mut c[..]); m.set_t(v); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 2, 3, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 1), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Enums::new(&mut c[..]); m.set_raw_t(r); }
            assert!(updated::<true>(&b[0..1], &c[0..1], 2, 3, r as u64) && others(&b, &c, 0, 1), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[0..2], 5, 8);
            assert!(s.get_raw_by() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            match s.get_by() {
                Some(v) => assert!(v as u64 == raw && (raw == 1 || raw == 200), "the view is the declared variant"),
                None => assert!(!(raw == 1 || raw == 200), "every declared variant is recognized"),
            }
            let k: usize = kani::any();
            let (v, bits) = match k { 0 => (Byte::One, 1u64), _ => (Byte::Big, 200) };
            { let mut m = Enums::new(&mut c[..]); m.set_by(v); }
            assert!(updated::<true>(&b[0..2], &c[0..2], 5, 8, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 0, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Enums::new(&mut c[..]); m.set_raw_by(r); }
            assert!(updated::<true>(&b[0..2], &c[0..2], 5, 8, r as u64) && others(&b, &c, 0, 2), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[1..2], 5, 3);
            assert!(s.get_raw_q() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_q() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = Enums::new(&mut c[..]); m.set_q(v); }
            assert!(updated::<true>(&b[1..2], &c[1..2], 5, 3, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 1, 2), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Enums::new(&mut c[..]); m.set_raw_q(r); }
            assert!(updated::<true>(&b[1..2], &c[1..2], 5, 3, r as u64) && others(&b, &c, 1, 2), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[2..4], 0, 16);
            assert!(s.get_raw_w() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            match s.get_w() {
                Some(v) => assert!(v as u64 == raw && (raw == 5 || raw == 1000 || raw == 65535), "the view is the declared variant"),
                None => assert!(!(raw == 5 || raw == 1000 || raw == 65535), "every declared variant is recognized"),
            }
            let k: usize = kani::any();
            let (v, bits) = match k { 0 => (Wide::Five, 5u64), 1 => (Wide::Thousand, 1000u64), _ => (Wide::Max, 65535) };
            { let mut m = Enums::new(&mut c[..]); m.set_w(v); }
            assert!(updated::<true>(&b[2..4], &c[2..4], 0, 16, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 2, 4), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Enums::new(&mut c[..]); m.set_raw_w(r); }
            assert!(updated::<true>(&b[2..4], &c[2..4], 0, 16, r as u64) && others(&b, &c, 2, 4), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[4..5], 0, 8);
            assert!(s.get_raw_t8() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            match s.get_t8() {
                Some(v) => assert!(v as u64 == raw && (raw == 0 || raw == 1 || raw == 3 || raw == 7), "the view is the declared variant"),
                None => assert!(!(raw == 0 || raw == 1 || raw == 3 || raw == 7), "every declared variant is recognized"),
            }
            let k: usize = kani::any();
            let (v, bits) = match k { 0 => (Tri::A, 0u64), 1 => (Tri::B, 1u64), 2 => (Tri::D, 3u64), _ => (Tri::H, 7) };
            { let mut m = Enums::new(&mut c[..]); m.set_t8(v); }
            assert!(updated::<true>(&b[4..5], &c[4..5], 0, 8, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 4, 5), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Enums::new(&mut c[..]); m.set_raw_t8(r); }
            assert!(updated::<true>(&b[4..5], &c[4..5], 0, 8, r as u64) && others(&b, &c, 4, 5), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[5..7], 0, 13);
            assert!(s.get_raw_b13() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            match s.get_b13() {
                Some(v) => assert!(v as u64 == raw && (raw == 1 || raw == 200), "the view is the declared variant"),
                None => assert!(!(raw == 1 || raw == 200), "every declared variant is recognized"),
            }
            let k: usize = kani::any();
            let (v, bits) = match k { 0 => (Byte::One, 1u64), _ => (Byte::Big, 200) };
            { let mut m = Enums::new(&mut c[..]); m.set_b13(v); }
            assert!(updated::<true>(&b[5..7], &c[5..7], 0, 13, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 5, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Enums::new(&mut c[..]); m.set_raw_b13(r); }
            assert!(updated::<true>(&b[5..7], &c[5..7], 0, 13, r as u64) && others(&b, &c, 5, 7), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[6..7], 5, 3);
            assert!(s.get_raw_r() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_r() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = Enums::new(&mut c[..]); m.set_r(v); }
            assert!(updated::<true>(&b[6..7], &c[6..7], 5, 3, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 6, 7), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Enums::new(&mut c[..]); m.set_raw_r(r); }
            assert!(updated::<true>(&b[6..7], &c[6..7], 5, 3, r as u64) && others(&b, &c, 6, 7), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[7..11], 0, 32);
            assert!(s.get_raw_w32() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            match s.get_w32() {
                Some(v) => assert!(v as u64 == raw && (raw == 5 || raw == 1000 || raw == 65535), "the view is the declared variant"),
                None => assert!(!(raw == 5 || raw == 1000 || raw == 65535), "every declared variant is recognized"),
            }
            let k: usize = kani::any();
            let (v, bits) = match k { 0 => (Wide::Five, 5u64), 1 => (Wide::Thousand, 1000u64), _ => (Wide::Max, 65535) };
            { let mut m = Enums::new(&mut c[..]); m.set_w32(v); }
            assert!(updated::<true>(&b[7..11], &c[7..11], 0, 32, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 7, 11), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Enums::new(&mut c[..]); m.set_raw_w32(r); }
            assert!(updated::<true>(&b[7..11], &c[7..11], 0, 32, r as u64) && others(&b, &c, 7, 11), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[11..19], 0, 64);
            assert!(s.get_raw_w64() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            match s.get_w64() {
                Some(v) => assert!(v as u64 == raw && (raw == 5 || raw == 1000 || raw == 65535), "the view is the declared variant"),
                None => assert!(!(raw == 5 || raw == 1000 || raw == 65535), "every declared variant is recognized"),
            }
            let k: usize = kani::any();
            let (v, bits) = match k { 0 => (Wide::Five, 5u64), 1 => (Wide::Thousand, 1000u64), _ => (Wide::Max, 65535) };
            { let mut m = Enums::new(&mut c[..]); m.set_w64(v); }
            assert!(updated::<true>(&b[11..19], &c[11..19], 0, 64, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 11, 19), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Enums::new(&mut c[..]); m.set_raw_w64(r); }
            assert!(updated::<true>(&b[11..19], &c[11..19], 0, 64, r as u64) && others(&b, &c, 11, 19), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[19..23], 0, 32);
            assert!(s.get_raw_h32() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            match s.get_h32() {
                Some(v) => assert!(v as u64 == raw && (raw == 1 || raw == 65537 || raw == 4000000000), "the view is the declared variant"),
                None => assert!(!(raw == 1 || raw == 65537 || raw == 4000000000), "every declared variant is recognized"),
            }
            let k: usize = kani::any();
            let (v, bits) = match k { 0 => (Huge::One, 1u64), 1 => (Huge::Past16, 65537u64), _ => (Huge::Past31, 4000000000) };
            { let mut m = Enums::new(&mut c[..]); m.set_h32(v); }
            assert!(updated::<true>(&b[19..23], &c[19..23], 0, 32, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 19, 23), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Enums::new(&mut c[..]); m.set_raw_h32(r); }
            assert!(updated::<true>(&b[19..23], &c[19..23], 0, 32, r as u64) && others(&b, &c, 19, 23), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[23..28], 0, 37);
            assert!(s.get_raw_h37() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            match s.get_h37() {
                Some(v) => assert!(v as u64 == raw && (raw == 1 || raw == 65537 || raw == 4000000000), "the view is the declared variant"),
                None => assert!(!(raw == 1 || raw == 65537 || raw == 4000000000), "every declared variant is recognized"),
            }
            let k: usize = kani::any();
            let (v, bits) = match k { 0 => (Huge::One, 1u64), 1 => (Huge::Past16, 65537u64), _ => (Huge::Past31, 4000000000) };
            { let mut m = Enums::new(&mut c[..]); m.set_h37(v); }
            assert!(updated::<true>(&b[23..28], &c[23..28], 0, 37, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 23, 28), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Enums::new(&mut c[..]); m.set_raw_h37(r); }
            assert!(updated::<true>(&b[23..28], &c[23..28], 0, 37, r as u64) && others(&b, &c, 23, 28), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[27..28], 5, 3);
            assert!(s.get_raw_s() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            assert!(s.get_s() as u64 == raw, "the value is the bits of the field");
            let v: u8 = kani::any();
            let bits = v as u64;
            { let mut m = Enums::new(&mut c[..]); m.set_s(v); }
            assert!(updated::<true>(&b[27..28], &c[27..28], 5, 3, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 27, 28), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Enums::new(&mut c[..]); m.set_raw_s(r); }
            assert!(updated::<true>(&b[27..28], &c[27..28], 5, 3, r as u64) && others(&b, &c, 27, 28), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[28..36], 0, 64);
            assert!(s.get_raw_h64() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            match s.get_h64() {
                Some(v) => assert!(v as u64 == raw && (raw == 1 || raw == 65537 || raw == 4000000000), "the view is the declared variant"),
                None => assert!(!(raw == 1 || raw == 65537 || raw == 4000000000), "every declared variant is recognized"),
            }
            let k: usize = kani::any();
            let (v, bits) = match k { 0 => (Huge::One, 1u64), 1 => (Huge::Past16, 65537u64), _ => (Huge::Past31, 4000000000) };
            { let mut m = Enums::new(&mut c[..]); m.set_h64(v); }
            assert!(updated::<true>(&b[28..36], &c[28..36], 0, 64, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 28, 36), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Enums::new(&mut c[..]); m.set_raw_h64(r); }
            assert!(updated::<true>(&b[28..36], &c[28..36], 0, 64, r as u64) && others(&b, &c, 28, 36), "the raw setter replaces the bits of the field only");
        }
        {
            let raw = field::<true>(&b[36..44], 0, 64);
            assert!(s.get_raw_g64() as u64 == raw, "the raw value is the bits of the field");
            let mut c = b;
            match s.get_g64() {
                Some(v) => assert!(v as u64 == raw && (raw == 0 || raw == 4294967297 || raw == 4611686018427387904), "the view is the declared variant"),
                None => assert!(!(raw == 0 || raw == 4294967297 || raw == 4611686018427387904), "every declared variant is recognized"),
            }
            let k: usize = kani::any();
            let (v, bits) = match k { 0 => (Giant::Zero, 0u64), 1 => (Giant::Past32, 4294967297u64), _ => (Giant::Past62, 4611686018427387904) };
            { let mut m = Enums::new(&mut c[..]); m.set_g64(v); }
            assert!(updated::<true>(&b[36..44], &c[36..44], 0, 64, bits), "the setter replaces the bits of the field");
            assert!(others(&b, &c, 36, 44), "the setter keeps the other bytes");
            let mut c = b;
            let r = kani::any();
            { let mut m = Enums::new(&mut c[..]); m.set_raw_g64(r); }
            assert!(updated::<true>(&b[36..44], &c[36..44], 0, 64, r as u64) && others(&b, &c, 36, 44), "the raw setter replaces the bits of the field only");
        }
    }
    /// known finding: items of an array of signed integers of 24 bits are not sign extended
    #[kani::proof]
    fn known_signed_array() {
        use crate::mixbe::*;
        let b: [u8; 7] = kani::any();
        let s = Narrow::new(&b[..]);
        assert!(s.get_i24s().get_raw(0) as i64 == (num(true, &b[0..3], 3) << 40) as i64 >> 40, "items of signed arrays keep their sign");
    }
}
