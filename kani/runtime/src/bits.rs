use crate::spec;
use bp3d_proto::codec::*;


macro_rules! rd { ($C:ident, $be:literal, $t:ty, $o:literal, $n:literal) => {{
    const LEN: usize = ($o + $n + 7) / 8;
    let b: [u8; LEN] = kani::any();
    let v = <$C as BitCodec>::read::<$t, $o, $n>(&b);
    assert!(v as u64 == spec::field::<$be>(&b, $o, $n), "read returns exactly the bits of the field");
}} }
macro_rules! wr { ($C:ident, $be:literal, $t:ty, $o:literal, $n:literal) => {{
    const LEN: usize = ($o + $n + 7) / 8;
    let old: [u8; LEN] = kani::any();
    let mut b = old;
    let v: $t = kani::any();
    <$C as BitCodec>::write::<$t, $o, $n>(&mut b, v);
    assert!(spec::updated::<$be>(&old, &b, $o, $n, v as u64), "write replaces exactly the bits of the field");
}} }

#[kani::proof]
fn rd_le_0_0() {
    rd!(BitCodecLE, false, u8, 0, 1);
    rd!(BitCodecLE, false, u8, 0, 2);
    rd!(BitCodecLE, false, u8, 0, 3);
    rd!(BitCodecLE, false, u8, 0, 4);
    rd!(BitCodecLE, false, u8, 0, 5);
    rd!(BitCodecLE, false, u8, 0, 6);
    rd!(BitCodecLE, false, u8, 0, 7);
    rd!(BitCodecLE, false, u8, 0, 8);
    rd!(BitCodecLE, false, u16, 0, 9);
    rd!(BitCodecLE, false, u16, 0, 10);
    rd!(BitCodecLE, false, u16, 0, 11);
    rd!(BitCodecLE, false, u16, 0, 12);
    rd!(BitCodecLE, false, u16, 0, 13);
    rd!(BitCodecLE, false, u16, 0, 14);
    rd!(BitCodecLE, false, u16, 0, 15);
    rd!(BitCodecLE, false, u16, 0, 16);
    rd!(BitCodecLE, false, u32, 0, 17);
    rd!(BitCodecLE, false, u32, 0, 18);
    rd!(BitCodecLE, false, u32, 0, 19);
    rd!(BitCodecLE, false, u32, 0, 20);
    rd!(BitCodecLE, false, u32, 0, 21);
    rd!(BitCodecLE, false, u32, 0, 22);
    rd!(BitCodecLE, false, u32, 0, 23);
    rd!(BitCodecLE, false, u32, 0, 24);
    rd!(BitCodecLE, false, u32, 0, 25);
    rd!(BitCodecLE, false, u32, 0, 26);
    rd!(BitCodecLE, false, u32, 0, 27);
    rd!(BitCodecLE, false, u32, 0, 28);
    rd!(BitCodecLE, false, u32, 0, 29);
    rd!(BitCodecLE, false, u32, 0, 30);
    rd!(BitCodecLE, false, u32, 0, 31);
    rd!(BitCodecLE, false, u32, 0, 32);
}
#[kani::proof]
fn rd_le_0_1() {
    rd!(BitCodecLE, false, u64, 0, 33);
    rd!(BitCodecLE, false, u64, 0, 34);
    rd!(BitCodecLE, false, u64, 0, 35);
    rd!(BitCodecLE, false, u64, 0, 36);
    rd!(BitCodecLE, false, u64, 0, 37);
    rd!(BitCodecLE, false, u64, 0, 38);
    rd!(BitCodecLE, false, u64, 0, 39);
    rd!(BitCodecLE, false, u64, 0, 40);
    rd!(BitCodecLE, false, u64, 0, 41);
    rd!(BitCodecLE, false, u64, 0, 42);
    rd!(BitCodecLE, false, u64, 0, 43);
    rd!(BitCodecLE, false, u64, 0, 44);
    rd!(BitCodecLE, false, u64, 0, 45);
    rd!(BitCodecLE, false, u64, 0, 46);
    rd!(BitCodecLE, false, u64, 0, 47);
    rd!(BitCodecLE, false, u64, 0, 48);
    rd!(BitCodecLE, false, u64, 0, 49);
    rd!(BitCodecLE, false, u64, 0, 50);
    rd!(BitCodecLE, false, u64, 0, 51);
    rd!(BitCodecLE, false, u64, 0, 52);
    rd!(BitCodecLE, false, u64, 0, 53);
    rd!(BitCodecLE, false, u64, 0, 54);
    rd!(BitCodecLE, false, u64, 0, 55);
    rd!(BitCodecLE, false, u64, 0, 56);
    rd!(BitCodecLE, false, u64, 0, 57);
    rd!(BitCodecLE, false, u64, 0, 58);
    rd!(BitCodecLE, false, u64, 0, 59);
    rd!(BitCodecLE, false, u64, 0, 60);
    rd!(BitCodecLE, false, u64, 0, 61);
    rd!(BitCodecLE, false, u64, 0, 62);
    rd!(BitCodecLE, false, u64, 0, 63);
    rd!(BitCodecLE, false, u64, 0, 64);
}
#[kani::proof]
fn wr_le_0_0() {
    wr!(BitCodecLE, false, u8, 0, 1);
    wr!(BitCodecLE, false, u8, 0, 2);
    wr!(BitCodecLE, false, u8, 0, 3);
    wr!(BitCodecLE, false, u8, 0, 4);
    wr!(BitCodecLE, false, u8, 0, 5);
    wr!(BitCodecLE, false, u8, 0, 6);
    wr!(BitCodecLE, false, u8, 0, 7);
    wr!(BitCodecLE, false, u8, 0, 8);
    wr!(BitCodecLE, false, u16, 0, 9);
    wr!(BitCodecLE, false, u16, 0, 10);
    wr!(BitCodecLE, false, u16, 0, 11);
    wr!(BitCodecLE, false, u16, 0, 12);
    wr!(BitCodecLE, false, u16, 0, 13);
    wr!(BitCodecLE, false, u16, 0, 14);
    wr!(BitCodecLE, false, u16, 0, 15);
    wr!(BitCodecLE, false, u16, 0, 16);
    wr!(BitCodecLE, false, u32, 0, 17);
    wr!(BitCodecLE, false, u32, 0, 18);
    wr!(BitCodecLE, false, u32, 0, 19);
    wr!(BitCodecLE, false, u32, 0, 20);
    wr!(BitCodecLE, false, u32, 0, 21);
    wr!(BitCodecLE, false, u32, 0, 22);
    wr!(BitCodecLE, false, u32, 0, 23);
    wr!(BitCodecLE, false, u32, 0, 24);
    wr!(BitCodecLE, false, u32, 0, 25);
    wr!(BitCodecLE, false, u32, 0, 26);
    wr!(BitCodecLE, false, u32, 0, 27);
    wr!(BitCodecLE, false, u32, 0, 28);
    wr!(BitCodecLE, false, u32, 0, 29);
    wr!(BitCodecLE, false, u32, 0, 30);
    wr!(BitCodecLE, false, u32, 0, 31);
    wr!(BitCodecLE, false, u32, 0, 32);
}
#[kani::proof]
fn wr_le_0_1() {
    wr!(BitCodecLE, false, u64, 0, 33);
    wr!(BitCodecLE, false, u64, 0, 34);
    wr!(BitCodecLE, false, u64, 0, 35);
    wr!(BitCodecLE, false, u64, 0, 36);
    wr!(BitCodecLE, false, u64, 0, 37);
    wr!(BitCodecLE, false, u64, 0, 38);
    wr!(BitCodecLE, false, u64, 0, 39);
    wr!(BitCodecLE, false, u64, 0, 40);
    wr!(BitCodecLE, false, u64, 0, 41);
    wr!(BitCodecLE, false, u64, 0, 42);
    wr!(BitCodecLE, false, u64, 0, 43);
    wr!(BitCodecLE, false, u64, 0, 44);
    wr!(BitCodecLE, false, u64, 0, 45);
    wr!(BitCodecLE, false, u64, 0, 46);
    wr!(BitCodecLE, false, u64, 0, 47);
    wr!(BitCodecLE, false, u64, 0, 48);
    wr!(BitCodecLE, false, u64, 0, 49);
    wr!(BitCodecLE, false, u64, 0, 50);
    wr!(BitCodecLE, false, u64, 0, 51);
    wr!(BitCodecLE, false, u64, 0, 52);
    wr!(BitCodecLE, false, u64, 0, 53);
    wr!(BitCodecLE, false, u64, 0, 54);
    wr!(BitCodecLE, false, u64, 0, 55);
    wr!(BitCodecLE, false, u64, 0, 56);
    wr!(BitCodecLE, false, u64, 0, 57);
    wr!(BitCodecLE, false, u64, 0, 58);
    wr!(BitCodecLE, false, u64, 0, 59);
    wr!(BitCodecLE, false, u64, 0, 60);
    wr!(BitCodecLE, false, u64, 0, 61);
    wr!(BitCodecLE, false, u64, 0, 62);
    wr!(BitCodecLE, false, u64, 0, 63);
    wr!(BitCodecLE, false, u64, 0, 64);
}
#[kani::proof]
fn rd_le_1_0() {
    rd!(BitCodecLE, false, u8, 1, 1);
    rd!(BitCodecLE, false, u8, 1, 2);
    rd!(BitCodecLE, false, u8, 1, 3);
    rd!(BitCodecLE, false, u8, 1, 4);
    rd!(BitCodecLE, false, u8, 1, 5);
    rd!(BitCodecLE, false, u8, 1, 6);
    rd!(BitCodecLE, false, u8, 1, 7);
    rd!(BitCodecLE, false, u8, 1, 8);
    rd!(BitCodecLE, false, u16, 1, 9);
    rd!(BitCodecLE, false, u16, 1, 10);
    rd!(BitCodecLE, false, u16, 1, 11);
    rd!(BitCodecLE, false, u16, 1, 12);
    rd!(BitCodecLE, false, u16, 1, 13);
    rd!(BitCodecLE, false, u16, 1, 14);
    rd!(BitCodecLE, false, u16, 1, 15);
    rd!(BitCodecLE, false, u16, 1, 16);
    rd!(BitCodecLE, false, u32, 1, 17);
    rd!(BitCodecLE, false, u32, 1, 18);
    rd!(BitCodecLE, false, u32, 1, 19);
    rd!(BitCodecLE, false, u32, 1, 20);
    rd!(BitCodecLE, false, u32, 1, 21);
    rd!(BitCodecLE, false, u32, 1, 22);
    rd!(BitCodecLE, false, u32, 1, 23);
    rd!(BitCodecLE, false, u32, 1, 24);
    rd!(BitCodecLE, false, u32, 1, 25);
    rd!(BitCodecLE, false, u32, 1, 26);
    rd!(BitCodecLE, false, u32, 1, 27);
    rd!(BitCodecLE, false, u32, 1, 28);
    rd!(BitCodecLE, false, u32, 1, 29);
    rd!(BitCodecLE, false, u32, 1, 30);
    rd!(BitCodecLE, false, u32, 1, 31);
    rd!(BitCodecLE, false, u32, 1, 32);
}
#[kani::proof]
fn rd_le_1_1() {
    rd!(BitCodecLE, false, u64, 1, 33);
    rd!(BitCodecLE, false, u64, 1, 34);
    rd!(BitCodecLE, false, u64, 1, 35);
    rd!(BitCodecLE, false, u64, 1, 36);
    rd!(BitCodecLE, false, u64, 1, 37);
    rd!(BitCodecLE, false, u64, 1, 38);
    rd!(BitCodecLE, false, u64, 1, 39);
    rd!(BitCodecLE, false, u64, 1, 40);
    rd!(BitCodecLE, false, u64, 1, 41);
    rd!(BitCodecLE, false, u64, 1, 42);
    rd!(BitCodecLE, false, u64, 1, 43);
    rd!(BitCodecLE, false, u64, 1, 44);
    rd!(BitCodecLE, false, u64, 1, 45);
    rd!(BitCodecLE, false, u64, 1, 46);
    rd!(BitCodecLE, false, u64, 1, 47);
    rd!(BitCodecLE, false, u64, 1, 48);
    rd!(BitCodecLE, false, u64, 1, 49);
    rd!(BitCodecLE, false, u64, 1, 50);
    rd!(BitCodecLE, false, u64, 1, 51);
    rd!(BitCodecLE, false, u64, 1, 52);
    rd!(BitCodecLE, false, u64, 1, 53);
    rd!(BitCodecLE, false, u64, 1, 54);
    rd!(BitCodecLE, false, u64, 1, 55);
    rd!(BitCodecLE, false, u64, 1, 56);
    rd!(BitCodecLE, false, u64, 1, 57);
    rd!(BitCodecLE, false, u64, 1, 58);
    rd!(BitCodecLE, false, u64, 1, 59);
    rd!(BitCodecLE, false, u64, 1, 60);
    rd!(BitCodecLE, false, u64, 1, 61);
    rd!(BitCodecLE, false, u64, 1, 62);
    rd!(BitCodecLE, false, u64, 1, 63);
    rd!(BitCodecLE, false, u64, 1, 64);
}
#[kani::proof]
fn wr_le_1_0() {
    wr!(BitCodecLE, false, u8, 1, 1);
    wr!(BitCodecLE, false, u8, 1, 2);
    wr!(BitCodecLE, false, u8, 1, 3);
    wr!(BitCodecLE, false, u8, 1, 4);
    wr!(BitCodecLE, false, u8, 1, 5);
    wr!(BitCodecLE, false, u8, 1, 6);
    wr!(BitCodecLE, false, u8, 1, 7);
    wr!(BitCodecLE, false, u8, 1, 8);
    wr!(BitCodecLE, false, u16, 1, 9);
    wr!(BitCodecLE, false, u16, 1, 10);
    wr!(BitCodecLE, false, u16, 1, 11);
    wr!(BitCodecLE, false, u16, 1, 12);
    wr!(BitCodecLE, false, u16, 1, 13);
    wr!(BitCodecLE, false, u16, 1, 14);
    wr!(BitCodecLE, false, u16, 1, 15);
    wr!(BitCodecLE, false, u16, 1, 16);
    wr!(BitCodecLE, false, u32, 1, 17);
    wr!(BitCodecLE, false, u32, 1, 18);
    wr!(BitCodecLE, false, u32, 1, 19);
    wr!(BitCodecLE, false, u32, 1, 20);
    wr!(BitCodecLE, false, u32, 1, 21);
    wr!(BitCodecLE, false, u32, 1, 22);
    wr!(BitCodecLE, false, u32, 1, 23);
    wr!(BitCodecLE, false, u32, 1, 24);
    wr!(BitCodecLE, false, u32, 1, 25);
    wr!(BitCodecLE, false, u32, 1, 26);
    wr!(BitCodecLE, false, u32, 1, 27);
    wr!(BitCodecLE, false, u32, 1, 28);
    wr!(BitCodecLE, false, u32, 1, 29);
    wr!(BitCodecLE, false, u32, 1, 30);
    wr!(BitCodecLE, false, u32, 1, 31);
    wr!(BitCodecLE, false, u32, 1, 32);
}
#[kani::proof]
fn wr_le_1_1() {
    wr!(BitCodecLE, false, u64, 1, 33);
    wr!(BitCodecLE, false, u64, 1, 34);
    wr!(BitCodecLE, false, u64, 1, 35);
    wr!(BitCodecLE, false, u64, 1, 36);
    wr!(BitCodecLE, false, u64, 1, 37);
    wr!(BitCodecLE, false, u64, 1, 38);
    wr!(BitCodecLE, false, u64, 1, 39);
    wr!(BitCodecLE, false, u64, 1, 40);
    wr!(BitCodecLE, false, u64, 1, 41);
    wr!(BitCodecLE, false, u64, 1, 42);
    wr!(BitCodecLE, false, u64, 1, 43);
    wr!(BitCodecLE, false, u64, 1, 44);
    wr!(BitCodecLE, false, u64, 1, 45);
    wr!(BitCodecLE, false, u64, 1, 46);
    wr!(BitCodecLE, false, u64, 1, 47);
    wr!(BitCodecLE, false, u64, 1, 48);
    wr!(BitCodecLE, false, u64, 1, 49);
    wr!(BitCodecLE, false, u64, 1, 50);
    wr!(BitCodecLE, false, u64, 1, 51);
    wr!(BitCodecLE, false, u64, 1, 52);
    wr!(BitCodecLE, false, u64, 1, 53);
    wr!(BitCodecLE, false, u64, 1, 54);
    wr!(BitCodecLE, false, u64, 1, 55);
    wr!(BitCodecLE, false, u64, 1, 56);
    wr!(BitCodecLE, false, u64, 1, 57);
    wr!(BitCodecLE, false, u64, 1, 58);
    wr!(BitCodecLE, false, u64, 1, 59);
    wr!(BitCodecLE, false, u64, 1, 60);
    wr!(BitCodecLE, false, u64, 1, 61);
    wr!(BitCodecLE, false, u64, 1, 62);
    wr!(BitCodecLE, false, u64, 1, 63);
    wr!(BitCodecLE, false, u64, 1, 64);
}
#[kani::proof]
fn rd_le_2_0() {
    rd!(BitCodecLE, false, u8, 2, 1);
    rd!(BitCodecLE, false, u8, 2, 2);
    rd!(BitCodecLE, false, u8, 2, 3);
    rd!(BitCodecLE, false, u8, 2, 4);
    rd!(BitCodecLE, false, u8, 2, 5);
    rd!(BitCodecLE, false, u8, 2, 6);
    rd!(BitCodecLE, false, u8, 2, 7);
    rd!(BitCodecLE, false, u8, 2, 8);
    rd!(BitCodecLE, false, u16, 2, 9);
    rd!(BitCodecLE, false, u16, 2, 10);
    rd!(BitCodecLE, false, u16, 2, 11);
    rd!(BitCodecLE, false, u16, 2, 12);
    rd!(BitCodecLE, false, u16, 2, 13);
    rd!(BitCodecLE, false, u16, 2, 14);
    rd!(BitCodecLE, false, u16, 2, 15);
    rd!(BitCodecLE, false, u16, 2, 16);
    rd!(BitCodecLE, false, u32, 2, 17);
    rd!(BitCodecLE, false, u32, 2, 18);
    rd!(BitCodecLE, false, u32, 2, 19);
    rd!(BitCodecLE, false, u32, 2, 20);
    rd!(BitCodecLE, false, u32, 2, 21);
    rd!(BitCodecLE, false, u32, 2, 22);
    rd!(BitCodecLE, false, u32, 2, 23);
    rd!(BitCodecLE, false, u32, 2, 24);
    rd!(BitCodecLE, false, u32, 2, 25);
    rd!(BitCodecLE, false, u32, 2, 26);
    rd!(BitCodecLE, false, u32, 2, 27);
    rd!(BitCodecLE, false, u32, 2, 28);
    rd!(BitCodecLE, false, u32, 2, 29);
    rd!(BitCodecLE, false, u32, 2, 30);
    rd!(BitCodecLE, false, u32, 2, 31);
    rd!(BitCodecLE, false, u32, 2, 32);
}
#[kani::proof]
fn rd_le_2_1() {
    rd!(BitCodecLE, false, u64, 2, 33);
    rd!(BitCodecLE, false, u64, 2, 34);
    rd!(BitCodecLE, false, u64, 2, 35);
    rd!(BitCodecLE, false, u64, 2, 36);
    rd!(BitCodecLE, false, u64, 2, 37);
    rd!(BitCodecLE, false, u64, 2, 38);
    rd!(BitCodecLE, false, u64, 2, 39);
    rd!(BitCodecLE, false, u64, 2, 40);
    rd!(BitCodecLE, false, u64, 2, 41);
    rd!(BitCodecLE, false, u64, 2, 42);
    rd!(BitCodecLE, false, u64, 2, 43);
    rd!(BitCodecLE, false, u64, 2, 44);
    rd!(BitCodecLE, false, u64, 2, 45);
    rd!(BitCodecLE, false, u64, 2, 46);
    rd!(BitCodecLE, false, u64, 2, 47);
    rd!(BitCodecLE, false, u64, 2, 48);
    rd!(BitCodecLE, false, u64, 2, 49);
    rd!(BitCodecLE, false, u64, 2, 50);
    rd!(BitCodecLE, false, u64, 2, 51);
    rd!(BitCodecLE, false, u64, 2, 52);
    rd!(BitCodecLE, false, u64, 2, 53);
    rd!(BitCodecLE, false, u64, 2, 54);
    rd!(BitCodecLE, false, u64, 2, 55);
    rd!(BitCodecLE, false, u64, 2, 56);
    rd!(BitCodecLE, false, u64, 2, 57);
    rd!(BitCodecLE, false, u64, 2, 58);
    rd!(BitCodecLE, false, u64, 2, 59);
    rd!(BitCodecLE, false, u64, 2, 60);
    rd!(BitCodecLE, false, u64, 2, 61);
    rd!(BitCodecLE, false, u64, 2, 62);
    rd!(BitCodecLE, false, u64, 2, 63);
    rd!(BitCodecLE, false, u64, 2, 64);
}
#[kani::proof]
fn wr_le_2_0() {
    wr!(BitCodecLE, false, u8, 2, 1);
    wr!(BitCodecLE, false, u8, 2, 2);
    wr!(BitCodecLE, false, u8, 2, 3);
    wr!(BitCodecLE, false, u8, 2, 4);
    wr!(BitCodecLE, false, u8, 2, 5);
    wr!(BitCodecLE, false, u8, 2, 6);
    wr!(BitCodecLE, false, u8, 2, 7);
    wr!(BitCodecLE, false, u8, 2, 8);
    wr!(BitCodecLE, false, u16, 2, 9);
    wr!(BitCodecLE, false, u16, 2, 10);
    wr!(BitCodecLE, false, u16, 2, 11);
    wr!(BitCodecLE, false, u16, 2, 12);
    wr!(BitCodecLE, false, u16, 2, 13);
    wr!(BitCodecLE, false, u16, 2, 14);
    wr!(BitCodecLE, false, u16, 2, 15);
    wr!(BitCodecLE, false, u16, 2, 16);
    wr!(BitCodecLE, false, u32, 2, 17);
    wr!(BitCodecLE, false, u32, 2, 18);
    wr!(BitCodecLE, false, u32, 2, 19);
    wr!(BitCodecLE, false, u32, 2, 20);
    wr!(BitCodecLE, false, u32, 2, 21);
    wr!(BitCodecLE, false, u32, 2, 22);
    wr!(BitCodecLE, false, u32, 2, 23);
    wr!(BitCodecLE, false, u32, 2, 24);
    wr!(BitCodecLE, false, u32, 2, 25);
    wr!(BitCodecLE, false, u32, 2, 26);
    wr!(BitCodecLE, false, u32, 2, 27);
    wr!(BitCodecLE, false, u32, 2, 28);
    wr!(BitCodecLE, false, u32, 2, 29);
    wr!(BitCodecLE, false, u32, 2, 30);
    wr!(BitCodecLE, false, u32, 2, 31);
    wr!(BitCodecLE, false, u32, 2, 32);
}
#[kani::proof]
fn wr_le_2_1() {
    wr!(BitCodecLE, false, u64, 2, 33);
    wr!(BitCodecLE, false, u64, 2, 34);
    wr!(BitCodecLE, false, u64, 2, 35);
    wr!(BitCodecLE, false, u64, 2, 36);
    wr!(BitCodecLE, false, u64, 2, 37);
    wr!(BitCodecLE, false, u64, 2, 38);
    wr!(BitCodecLE, false, u64, 2, 39);
    wr!(BitCodecLE, false, u64, 2, 40);
    wr!(BitCodecLE, false, u64, 2, 41);
    wr!(BitCodecLE, false, u64, 2, 42);
    wr!(BitCodecLE, false, u64, 2, 43);
    wr!(BitCodecLE, false, u64, 2, 44);
    wr!(BitCodecLE, false, u64, 2, 45);
    wr!(BitCodecLE, false, u64, 2, 46);
    wr!(BitCodecLE, false, u64, 2, 47);
    wr!(BitCodecLE, false, u64, 2, 48);
    wr!(BitCodecLE, false, u64, 2, 49);
    wr!(BitCodecLE, false, u64, 2, 50);
    wr!(BitCodecLE, false, u64, 2, 51);
    wr!(BitCodecLE, false, u64, 2, 52);
    wr!(BitCodecLE, false, u64, 2, 53);
    wr!(BitCodecLE, false, u64, 2, 54);
    wr!(BitCodecLE, false, u64, 2, 55);
    wr!(BitCodecLE, false, u64, 2, 56);
    wr!(BitCodecLE, false, u64, 2, 57);
    wr!(BitCodecLE, false, u64, 2, 58);
    wr!(BitCodecLE, false, u64, 2, 59);
    wr!(BitCodecLE, false, u64, 2, 60);
    wr!(BitCodecLE, false, u64, 2, 61);
    wr!(BitCodecLE, false, u64, 2, 62);
    wr!(BitCodecLE, false, u64, 2, 63);
    wr!(BitCodecLE, false, u64, 2, 64);
}
#[kani::proof]
fn rd_le_3_0() {
    rd!(BitCodecLE, false, u8, 3, 1);
    rd!(BitCodecLE, false, u8, 3, 2);
    rd!(BitCodecLE, false, u8, 3, 3);
    rd!(BitCodecLE, false, u8, 3, 4);
    rd!(BitCodecLE, false, u8, 3, 5);
    rd!(BitCodecLE, false, u8, 3, 6);
    rd!(BitCodecLE, false, u8, 3, 7);
    rd!(BitCodecLE, false, u8, 3, 8);
    rd!(BitCodecLE, false, u16, 3, 9);
    rd!(BitCodecLE, false, u16, 3, 10);
    rd!(BitCodecLE, false, u16, 3, 11);
    rd!(BitCodecLE, false, u16, 3, 12);
    rd!(BitCodecLE, false, u16, 3, 13);
    rd!(BitCodecLE, false, u16, 3, 14);
    rd!(BitCodecLE, false, u16, 3, 15);
    rd!(BitCodecLE, false, u16, 3, 16);
    rd!(BitCodecLE, false, u32, 3, 17);
    rd!(BitCodecLE, false, u32, 3, 18);
    rd!(BitCodecLE, false, u32, 3, 19);
    rd!(BitCodecLE, false, u32, 3, 20);
    rd!(BitCodecLE, false, u32, 3, 21);
    rd!(BitCodecLE, false, u32, 3, 22);
    rd!(BitCodecLE, false, u32, 3, 23);
    rd!(BitCodecLE, false, u32, 3, 24);
    rd!(BitCodecLE, false, u32, 3, 25);
    rd!(BitCodecLE, false, u32, 3, 26);
    rd!(BitCodecLE, false, u32, 3, 27);
    rd!(BitCodecLE, false, u32, 3, 28);
    rd!(BitCodecLE, false, u32, 3, 29);
    rd!(BitCodecLE, false, u32, 3, 30);
    rd!(BitCodecLE, false, u32, 3, 31);
    rd!(BitCodecLE, false, u32, 3, 32);
}
#[kani::proof]
fn rd_le_3_1() {
    rd!(BitCodecLE, false, u64, 3, 33);
    rd!(BitCodecLE, false, u64, 3, 34);
    rd!(BitCodecLE, false, u64, 3, 35);
    rd!(BitCodecLE, false, u64, 3, 36);
    rd!(BitCodecLE, false, u64, 3, 37);
    rd!(BitCodecLE, false, u64, 3, 38);
    rd!(BitCodecLE, false, u64, 3, 39);
    rd!(BitCodecLE, false, u64, 3, 40);
    rd!(BitCodecLE, false, u64, 3, 41);
    rd!(BitCodecLE, false, u64, 3, 42);
    rd!(BitCodecLE, false, u64, 3, 43);
    rd!(BitCodecLE, false, u64, 3, 44);
    rd!(BitCodecLE, false, u64, 3, 45);
    rd!(BitCodecLE, false, u64, 3, 46);
    rd!(BitCodecLE, false, u64, 3, 47);
    rd!(BitCodecLE, false, u64, 3, 48);
    rd!(BitCodecLE, false, u64, 3, 49);
    rd!(BitCodecLE, false, u64, 3, 50);
    rd!(BitCodecLE, false, u64, 3, 51);
    rd!(BitCodecLE, false, u64, 3, 52);
    rd!(BitCodecLE, false, u64, 3, 53);
    rd!(BitCodecLE, false, u64, 3, 54);
    rd!(BitCodecLE, false, u64, 3, 55);
    rd!(BitCodecLE, false, u64, 3, 56);
    rd!(BitCodecLE, false, u64, 3, 57);
    rd!(BitCodecLE, false, u64, 3, 58);
    rd!(BitCodecLE, false, u64, 3, 59);
    rd!(BitCodecLE, false, u64, 3, 60);
    rd!(BitCodecLE, false, u64, 3, 61);
    rd!(BitCodecLE, false, u64, 3, 62);
    rd!(BitCodecLE, false, u64, 3, 63);
    rd!(BitCodecLE, false, u64, 3, 64);
}
#[kani::proof]
fn wr_le_3_0() {
    wr!(BitCodecLE, false, u8, 3, 1);
    wr!(BitCodecLE, false, u8, 3, 2);
    wr!(BitCodecLE, false, u8, 3, 3);
    wr!(BitCodecLE, false, u8, 3, 4);
    wr!(BitCodecLE, false, u8, 3, 5);
    wr!(BitCodecLE, false, u8, 3, 6);
    wr!(BitCodecLE, false, u8, 3, 7);
    wr!(BitCodecLE, false, u8, 3, 8);
    wr!(BitCodecLE, false, u16, 3, 9);
    wr!(BitCodecLE, false, u16, 3, 10);
    wr!(BitCodecLE, false, u16, 3, 11);
    wr!(BitCodecLE, false, u16, 3, 12);
    wr!(BitCodecLE, false, u16, 3, 13);
    wr!(BitCodecLE, false, u16, 3, 14);
    wr!(BitCodecLE, false, u16, 3, 15);
    wr!(BitCodecLE, false, u16, 3, 16);
    wr!(BitCodecLE, false, u32, 3, 17);
    wr!(BitCodecLE, false, u32, 3, 18);
    wr!(BitCodecLE, false, u32, 3, 19);
    wr!(BitCodecLE, false, u32, 3, 20);
    wr!(BitCodecLE, false, u32, 3, 21);
    wr!(BitCodecLE, false, u32, 3, 22);
    wr!(BitCodecLE, false, u32, 3, 23);
    wr!(BitCodecLE, false, u32, 3, 24);
    wr!(BitCodecLE, false, u32, 3, 25);
    wr!(BitCodecLE, false, u32, 3, 26);
    wr!(BitCodecLE, false, u32, 3, 27);
    wr!(BitCodecLE, false, u32, 3, 28);
    wr!(BitCodecLE, false, u32, 3, 29);
    wr!(BitCodecLE, false, u32, 3, 30);
    wr!(BitCodecLE, false, u32, 3, 31);
    wr!(BitCodecLE, false, u32, 3, 32);
}
#[kani::proof]
fn wr_le_3_1() {
    wr!(BitCodecLE, false, u64, 3, 33);
    wr!(BitCodecLE, false, u64, 3, 34);
    wr!(BitCodecLE, false, u64, 3, 35);
    wr!(BitCodecLE, false, u64, 3, 36);
    wr!(BitCodecLE, false, u64, 3, 37);
    wr!(BitCodecLE, false, u64, 3, 38);
    wr!(BitCodecLE, false, u64, 3, 39);
    wr!(BitCodecLE, false, u64, 3, 40);
    wr!(BitCodecLE, false, u64, 3, 41);
    wr!(BitCodecLE, false, u64, 3, 42);
    wr!(BitCodecLE, false, u64, 3, 43);
    wr!(BitCodecLE, false, u64, 3, 44);
    wr!(BitCodecLE, false, u64, 3, 45);
    wr!(BitCodecLE, false, u64, 3, 46);
    wr!(BitCodecLE, false, u64, 3, 47);
    wr!(BitCodecLE, false, u64, 3, 48);
    wr!(BitCodecLE, false, u64, 3, 49);
    wr!(BitCodecLE, false, u64, 3, 50);
    wr!(BitCodecLE, false, u64, 3, 51);
    wr!(BitCodecLE, false, u64, 3, 52);
    wr!(BitCodecLE, false, u64, 3, 53);
    wr!(BitCodecLE, false, u64, 3, 54);
    wr!(BitCodecLE, false, u64, 3, 55);
    wr!(BitCodecLE, false, u64, 3, 56);
    wr!(BitCodecLE, false, u64, 3, 57);
    wr!(BitCodecLE, false, u64, 3, 58);
    wr!(BitCodecLE, false, u64, 3, 59);
    wr!(BitCodecLE, false, u64, 3, 60);
    wr!(BitCodecLE, false, u64, 3, 61);
    wr!(BitCodecLE, false, u64, 3, 62);
    wr!(BitCodecLE, false, u64, 3, 63);
    wr!(BitCodecLE, false, u64, 3, 64);
}
#[kani::proof]
fn rd_le_4_0() {
    rd!(BitCodecLE, false, u8, 4, 1);
    rd!(BitCodecLE, false, u8, 4, 2);
    rd!(BitCodecLE, false, u8, 4, 3);
    rd!(BitCodecLE, false, u8, 4, 4);
    rd!(BitCodecLE, false, u8, 4, 5);
    rd!(BitCodecLE, false, u8, 4, 6);
    rd!(BitCodecLE, false, u8, 4, 7);
    rd!(BitCodecLE, false, u8, 4, 8);
    rd!(BitCodecLE, false, u16, 4, 9);
    rd!(BitCodecLE, false, u16, 4, 10);
    rd!(BitCodecLE, false, u16, 4, 11);
    rd!(BitCodecLE, false, u16, 4, 12);
    rd!(BitCodecLE, false, u16, 4, 13);
    rd!(BitCodecLE, false, u16, 4, 14);
    rd!(BitCodecLE, false, u16, 4, 15);
    rd!(BitCodecLE, false, u16, 4, 16);
    rd!(BitCodecLE, false, u32, 4, 17);
    rd!(BitCodecLE, false, u32, 4, 18);
    rd!(BitCodecLE, false, u32, 4, 19);
    rd!(BitCodecLE, false, u32, 4, 20);
    rd!(BitCodecLE, false, u32, 4, 21);
    rd!(BitCodecLE, false, u32, 4, 22);
    rd!(BitCodecLE, false, u32, 4, 23);
    rd!(BitCodecLE, false, u32, 4, 24);
    rd!(BitCodecLE, false, u32, 4, 25);
    rd!(BitCodecLE, false, u32, 4, 26);
    rd!(BitCodecLE, false, u32, 4, 27);
    rd!(BitCodecLE, false, u32, 4, 28);
    rd!(BitCodecLE, false, u32, 4, 29);
    rd!(BitCodecLE, false, u32, 4, 30);
    rd!(BitCodecLE, false, u32, 4, 31);
    rd!(BitCodecLE, false, u32, 4, 32);
}
#[kani::proof]
fn rd_le_4_1() {
    rd!(BitCodecLE, false, u64, 4, 33);
    rd!(BitCodecLE, false, u64, 4, 34);
    rd!(BitCodecLE, false, u64, 4, 35);
    rd!(BitCodecLE, false, u64, 4, 36);
    rd!(BitCodecLE, false, u64, 4, 37);
    rd!(BitCodecLE, false, u64, 4, 38);
    rd!(BitCodecLE, false, u64, 4, 39);
    rd!(BitCodecLE, false, u64, 4, 40);
    rd!(BitCodecLE, false, u64, 4, 41);
    rd!(BitCodecLE, false, u64, 4, 42);
    rd!(BitCodecLE, false, u64, 4, 43);
    rd!(BitCodecLE, false, u64, 4, 44);
    rd!(BitCodecLE, false, u64, 4, 45);
    rd!(BitCodecLE, false, u64, 4, 46);
    rd!(BitCodecLE, false, u64, 4, 47);
    rd!(BitCodecLE, false, u64, 4, 48);
    rd!(BitCodecLE, false, u64, 4, 49);
    rd!(BitCodecLE, false, u64, 4, 50);
    rd!(BitCodecLE, false, u64, 4, 51);
    rd!(BitCodecLE, false, u64, 4, 52);
    rd!(BitCodecLE, false, u64, 4, 53);
    rd!(BitCodecLE, false, u64, 4, 54);
    rd!(BitCodecLE, false, u64, 4, 55);
    rd!(BitCodecLE, false, u64, 4, 56);
    rd!(BitCodecLE, false, u64, 4, 57);
    rd!(BitCodecLE, false, u64, 4, 58);
    rd!(BitCodecLE, false, u64, 4, 59);
    rd!(BitCodecLE, false, u64, 4, 60);
    rd!(BitCodecLE, false, u64, 4, 61);
    rd!(BitCodecLE, false, u64, 4, 62);
    rd!(BitCodecLE, false, u64, 4, 63);
    rd!(BitCodecLE, false, u64, 4, 64);
}
#[kani::proof]
fn wr_le_4_0() {
    wr!(BitCodecLE, false, u8, 4, 1);
    wr!(BitCodecLE, false, u8, 4, 2);
    wr!(BitCodecLE, false, u8, 4, 3);
    wr!(BitCodecLE, false, u8, 4, 4);
    wr!(BitCodecLE, false, u8, 4, 5);
    wr!(BitCodecLE, false, u8, 4, 6);
    wr!(BitCodecLE, false, u8, 4, 7);
    wr!(BitCodecLE, false, u8, 4, 8);
    wr!(BitCodecLE, false, u16, 4, 9);
    wr!(BitCodecLE, false, u16, 4, 10);
    wr!(BitCodecLE, false, u16, 4, 11);
    wr!(BitCodecLE, false, u16, 4, 12);
    wr!(BitCodecLE, false, u16, 4, 13);
    wr!(BitCodecLE, false, u16, 4, 14);
    wr!(BitCodecLE, false, u16, 4, 15);
    wr!(BitCodecLE, false, u16, 4, 16);
    wr!(BitCodecLE, false, u32, 4, 17);
    wr!(BitCodecLE, false, u32, 4, 18);
    wr!(BitCodecLE, false, u32, 4, 19);
    wr!(BitCodecLE, false, u32, 4, 20);
    wr!(BitCodecLE, false, u32, 4, 21);
    wr!(BitCodecLE, false, u32, 4, 22);
    wr!(BitCodecLE, false, u32, 4, 23);
    wr!(BitCodecLE, false, u32, 4, 24);
    wr!(BitCodecLE, false, u32, 4, 25);
    wr!(BitCodecLE, false, u32, 4, 26);
    wr!(BitCodecLE, false, u32, 4, 27);
    wr!(BitCodecLE, false, u32, 4, 28);
    wr!(BitCodecLE, false, u32, 4, 29);
    wr!(BitCodecLE, false, u32, 4, 30);
    wr!(BitCodecLE, false, u32, 4, 31);
    wr!(BitCodecLE, false, u32, 4, 32);
}
#[kani::proof]
fn wr_le_4_1() {
    wr!(BitCodecLE, false, u64, 4, 33);
    wr!(BitCodecLE, false, u64, 4, 34);
    wr!(BitCodecLE, false, u64, 4, 35);
    wr!(BitCodecLE, false, u64, 4, 36);
    wr!(BitCodecLE, false, u64, 4, 37);
    wr!(BitCodecLE, false, u64, 4, 38);
    wr!(BitCodecLE, false, u64, 4, 39);
    wr!(BitCodecLE, false, u64, 4, 40);
    wr!(BitCodecLE, false, u64, 4, 41);
    wr!(BitCodecLE, false, u64, 4, 42);
    wr!(BitCodecLE, false, u64, 4, 43);
    wr!(BitCodecLE, false, u64, 4, 44);
    wr!(BitCodecLE, false, u64, 4, 45);
    wr!(BitCodecLE, false, u64, 4, 46);
    wr!(BitCodecLE, false, u64, 4, 47);
    wr!(BitCodecLE, false, u64, 4, 48);
    wr!(BitCodecLE, false, u64, 4, 49);
    wr!(BitCodecLE, false, u64, 4, 50);
    wr!(BitCodecLE, false, u64, 4, 51);
    wr!(BitCodecLE, false, u64, 4, 52);
    wr!(BitCodecLE, false, u64, 4, 53);
    wr!(BitCodecLE, false, u64, 4, 54);
    wr!(BitCodecLE, false, u64, 4, 55);
    wr!(BitCodecLE, false, u64, 4, 56);
    wr!(BitCodecLE, false, u64, 4, 57);
    wr!(BitCodecLE, false, u64, 4, 58);
    wr!(BitCodecLE, false, u64, 4, 59);
    wr!(BitCodecLE, false, u64, 4, 60);
    wr!(BitCodecLE, false, u64, 4, 61);
    wr!(BitCodecLE, false, u64, 4, 62);
    wr!(BitCodecLE, false, u64, 4, 63);
    wr!(BitCodecLE, false, u64, 4, 64);
}
#[kani::proof]
fn rd_le_5_0() {
    rd!(BitCodecLE, false, u8, 5, 1);
    rd!(BitCodecLE, false, u8, 5, 2);
    rd!(BitCodecLE, false, u8, 5, 3);
    rd!(BitCodecLE, false, u8, 5, 4);
    rd!(BitCodecLE, false, u8, 5, 5);
    rd!(BitCodecLE, false, u8, 5, 6);
    rd!(BitCodecLE, false, u8, 5, 7);
    rd!(BitCodecLE, false, u8, 5, 8);
    rd!(BitCodecLE, false, u16, 5, 9);
    rd!(BitCodecLE, false, u16, 5, 10);
    rd!(BitCodecLE, false, u16, 5, 11);
    rd!(BitCodecLE, false, u16, 5, 12);
    rd!(BitCodecLE, false, u16, 5, 13);
    rd!(BitCodecLE, false, u16, 5, 14);
    rd!(BitCodecLE, false, u16, 5, 15);
    rd!(BitCodecLE, false, u16, 5, 16);
    rd!(BitCodecLE, false, u32, 5, 17);
    rd!(BitCodecLE, false, u32, 5, 18);
    rd!(BitCodecLE, false, u32, 5, 19);
    rd!(BitCodecLE, false, u32, 5, 20);
    rd!(BitCodecLE, false, u32, 5, 21);
    rd!(BitCodecLE, false, u32, 5, 22);
    rd!(BitCodecLE, false, u32, 5, 23);
    rd!(BitCodecLE, false, u32, 5, 24);
    rd!(BitCodecLE, false, u32, 5, 25);
    rd!(BitCodecLE, false, u32, 5, 26);
    rd!(BitCodecLE, false, u32, 5, 27);
    rd!(BitCodecLE, false, u32, 5, 28);
    rd!(BitCodecLE, false, u32, 5, 29);
    rd!(BitCodecLE, false, u32, 5, 30);
    rd!(BitCodecLE, false, u32, 5, 31);
    rd!(BitCodecLE, false, u32, 5, 32);
}
#[kani::proof]
fn rd_le_5_1() {
    rd!(BitCodecLE, false, u64, 5, 33);
    rd!(BitCodecLE, false, u64, 5, 34);
    rd!(BitCodecLE, false, u64, 5, 35);
    rd!(BitCodecLE, false, u64, 5, 36);
    rd!(BitCodecLE, false, u64, 5, 37);
    rd!(BitCodecLE, false, u64, 5, 38);
    rd!(BitCodecLE, false, u64, 5, 39);
    rd!(BitCodecLE, false, u64, 5, 40);
    rd!(BitCodecLE, false, u64, 5, 41);
    rd!(BitCodecLE, false, u64, 5, 42);
    rd!(BitCodecLE, false, u64, 5, 43);
    rd!(BitCodecLE, false, u64, 5, 44);
    rd!(BitCodecLE, false, u64, 5, 45);
    rd!(BitCodecLE, false, u64, 5, 46);
    rd!(BitCodecLE, false, u64, 5, 47);
    rd!(BitCodecLE, false, u64, 5, 48);
    rd!(BitCodecLE, false, u64, 5, 49);
    rd!(BitCodecLE, false, u64, 5, 50);
    rd!(BitCodecLE, false, u64, 5, 51);
    rd!(BitCodecLE, false, u64, 5, 52);
    rd!(BitCodecLE, false, u64, 5, 53);
    rd!(BitCodecLE, false, u64, 5, 54);
    rd!(BitCodecLE, false, u64, 5, 55);
    rd!(BitCodecLE, false, u64, 5, 56);
    rd!(BitCodecLE, false, u64, 5, 57);
    rd!(BitCodecLE, false, u64, 5, 58);
    rd!(BitCodecLE, false, u64, 5, 59);
    rd!(BitCodecLE, false, u64, 5, 60);
    rd!(BitCodecLE, false, u64, 5, 61);
    rd!(BitCodecLE, false, u64, 5, 62);
    rd!(BitCodecLE, false, u64, 5, 63);
    rd!(BitCodecLE, false, u64, 5, 64);
}
#[kani::proof]
fn wr_le_5_0() {
    wr!(BitCodecLE, false, u8, 5, 1);
    wr!(BitCodecLE, false, u8, 5, 2);
    wr!(BitCodecLE, false, u8, 5, 3);
    wr!(BitCodecLE, false, u8, 5, 4);
    wr!(BitCodecLE, false, u8, 5, 5);
    wr!(BitCodecLE, false, u8, 5, 6);
    wr!(BitCodecLE, false, u8, 5, 7);
    wr!(BitCodecLE, false, u8, 5, 8);
    wr!(BitCodecLE, false, u16, 5, 9);
    wr!(BitCodecLE, false, u16, 5, 10);
    wr!(BitCodecLE, false, u16, 5, 11);
    wr!(BitCodecLE, false, u16, 5, 12);
    wr!(BitCodecLE, false, u16, 5, 13);
    wr!(BitCodecLE, false, u16, 5, 14);
    wr!(BitCodecLE, false, u16, 5, 15);
    wr!(BitCodecLE, false, u16, 5, 16);
    wr!(BitCodecLE, false, u32, 5, 17);
    wr!(BitCodecLE, false, u32, 5, 18);
    wr!(BitCodecLE, false, u32, 5, 19);
    wr!(BitCodecLE, false, u32, 5, 20);
    wr!(BitCodecLE, false, u32, 5, 21);
    wr!(BitCodecLE, false, u32, 5, 22);
    wr!(BitCodecLE, false, u32, 5, 23);
    wr!(BitCodecLE, false, u32, 5, 24);
    wr!(BitCodecLE, false, u32, 5, 25);
    wr!(BitCodecLE, false, u32, 5, 26);
    wr!(BitCodecLE, false, u32, 5, 27);
    wr!(BitCodecLE, false, u32, 5, 28);
    wr!(BitCodecLE, false, u32, 5, 29);
    wr!(BitCodecLE, false, u32, 5, 30);
    wr!(BitCodecLE, false, u32, 5, 31);
    wr!(BitCodecLE, false, u32, 5, 32);
}
#[kani::proof]
fn wr_le_5_1() {
    wr!(BitCodecLE, false, u64, 5, 33);
    wr!(BitCodecLE, false, u64, 5, 34);
    wr!(BitCodecLE, false, u64, 5, 35);
    wr!(BitCodecLE, false, u64, 5, 36);
    wr!(BitCodecLE, false, u64, 5, 37);
    wr!(BitCodecLE, false, u64, 5, 38);
    wr!(BitCodecLE, false, u64, 5, 39);
    wr!(BitCodecLE, false, u64, 5, 40);
    wr!(BitCodecLE, false, u64, 5, 41);
    wr!(BitCodecLE, false, u64, 5, 42);
    wr!(BitCodecLE, false, u64, 5, 43);
    wr!(BitCodecLE, false, u64, 5, 44);
    wr!(BitCodecLE, false, u64, 5, 45);
    wr!(BitCodecLE, false, u64, 5, 46);
    wr!(BitCodecLE, false, u64, 5, 47);
    wr!(BitCodecLE, false, u64, 5, 48);
    wr!(BitCodecLE, false, u64, 5, 49);
    wr!(BitCodecLE, false, u64, 5, 50);
    wr!(BitCodecLE, false, u64, 5, 51);
    wr!(BitCodecLE, false, u64, 5, 52);
    wr!(BitCodecLE, false, u64, 5, 53);
    wr!(BitCodecLE, false, u64, 5, 54);
    wr!(BitCodecLE, false, u64, 5, 55);
    wr!(BitCodecLE, false, u64, 5, 56);
    wr!(BitCodecLE, false, u64, 5, 57);
    wr!(BitCodecLE, false, u64, 5, 58);
    wr!(BitCodecLE, false, u64, 5, 59);
    wr!(BitCodecLE, false, u64, 5, 60);
    wr!(BitCodecLE, false, u64, 5, 61);
    wr!(BitCodecLE, false, u64, 5, 62);
    wr!(BitCodecLE, false, u64, 5, 63);
    wr!(BitCodecLE, false, u64, 5, 64);
}
#[kani::proof]
fn rd_le_6_0() {
    rd!(BitCodecLE, false, u8, 6, 1);
    rd!(BitCodecLE, false, u8, 6, 2);
    rd!(BitCodecLE, false, u8, 6, 3);
    rd!(BitCodecLE, false, u8, 6, 4);
    rd!(BitCodecLE, false, u8, 6, 5);
    rd!(BitCodecLE, false, u8, 6, 6);
    rd!(BitCodecLE, false, u8, 6, 7);
    rd!(BitCodecLE, false, u8, 6, 8);
    rd!(BitCodecLE, false, u16, 6, 9);
    rd!(BitCodecLE, false, u16, 6, 10);
    rd!(BitCodecLE, false, u16, 6, 11);
    rd!(BitCodecLE, false, u16, 6, 12);
    rd!(BitCodecLE, false, u16, 6, 13);
    rd!(BitCodecLE, false, u16, 6, 14);
    rd!(BitCodecLE, false, u16, 6, 15);
    rd!(BitCodecLE, false, u16, 6, 16);
    rd!(BitCodecLE, false, u32, 6, 17);
    rd!(BitCodecLE, false, u32, 6, 18);
    rd!(BitCodecLE, false, u32, 6, 19);
    rd!(BitCodecLE, false, u32, 6, 20);
    rd!(BitCodecLE, false, u32, 6, 21);
    rd!(BitCodecLE, false, u32, 6, 22);
    rd!(BitCodecLE, false, u32, 6, 23);
    rd!(BitCodecLE, false, u32, 6, 24);
    rd!(BitCodecLE, false, u32, 6, 25);
    rd!(BitCodecLE, false, u32, 6, 26);
    rd!(BitCodecLE, false, u32, 6, 27);
    rd!(BitCodecLE, false, u32, 6, 28);
    rd!(BitCodecLE, false, u32, 6, 29);
    rd!(BitCodecLE, false, u32, 6, 30);
    rd!(BitCodecLE, false, u32, 6, 31);
    rd!(BitCodecLE, false, u32, 6, 32);
}
#[kani::proof]
fn rd_le_6_1() {
    rd!(BitCodecLE, false, u64, 6, 33);
    rd!(BitCodecLE, false, u64, 6, 34);
    rd!(BitCodecLE, false, u64, 6, 35);
    rd!(BitCodecLE, false, u64, 6, 36);
    rd!(BitCodecLE, false, u64, 6, 37);
    rd!(BitCodecLE, false, u64, 6, 38);
    rd!(BitCodecLE, false, u64, 6, 39);
    rd!(BitCodecLE, false, u64, 6, 40);
    rd!(BitCodecLE, false, u64, 6, 41);
    rd!(BitCodecLE, false, u64, 6, 42);
    rd!(BitCodecLE, false, u64, 6, 43);
    rd!(BitCodecLE, false, u64, 6, 44);
    rd!(BitCodecLE, false, u64, 6, 45);
    rd!(BitCodecLE, false, u64, 6, 46);
    rd!(BitCodecLE, false, u64, 6, 47);
    rd!(BitCodecLE, false, u64, 6, 48);
    rd!(BitCodecLE, false, u64, 6, 49);
    rd!(BitCodecLE, false, u64, 6, 50);
    rd!(BitCodecLE, false, u64, 6, 51);
    rd!(BitCodecLE, false, u64, 6, 52);
    rd!(BitCodecLE, false, u64, 6, 53);
    rd!(BitCodecLE, false, u64, 6, 54);
    rd!(BitCodecLE, false, u64, 6, 55);
    rd!(BitCodecLE, false, u64, 6, 56);
    rd!(BitCodecLE, false, u64, 6, 57);
    rd!(BitCodecLE, false, u64, 6, 58);
    rd!(BitCodecLE, false, u64, 6, 59);
    rd!(BitCodecLE, false, u64, 6, 60);
    rd!(BitCodecLE, false, u64, 6, 61);
    rd!(BitCodecLE, false, u64, 6, 62);
    rd!(BitCodecLE, false, u64, 6, 63);
    rd!(BitCodecLE, false, u64, 6, 64);
}
#[kani::proof]
fn wr_le_6_0() {
    wr!(BitCodecLE, false, u8, 6, 1);
    wr!(BitCodecLE, false, u8, 6, 2);
    wr!(BitCodecLE, false, u8, 6, 3);
    wr!(BitCodecLE, false, u8, 6, 4);
    wr!(BitCodecLE, false, u8, 6, 5);
    wr!(BitCodecLE, false, u8, 6, 6);
    wr!(BitCodecLE, false, u8, 6, 7);
    wr!(BitCodecLE, false, u8, 6, 8);
    wr!(BitCodecLE, false, u16, 6, 9);
    wr!(BitCodecLE, false, u16, 6, 10);
    wr!(BitCodecLE, false, u16, 6, 11);
    wr!(BitCodecLE, false, u16, 6, 12);
    wr!(BitCodecLE, false, u16, 6, 13);
    wr!(BitCodecLE, false, u16, 6, 14);
    wr!(BitCodecLE, false, u16, 6, 15);
    wr!(BitCodecLE, false, u16, 6, 16);
    wr!(BitCodecLE, false, u32, 6, 17);
    wr!(BitCodecLE, false, u32, 6, 18);
    wr!(BitCodecLE, false, u32, 6, 19);
    wr!(BitCodecLE, false, u32, 6, 20);
    wr!(BitCodecLE, false, u32, 6, 21);
    wr!(BitCodecLE, false, u32, 6, 22);
    wr!(BitCodecLE, false, u32, 6, 23);
    wr!(BitCodecLE, false, u32, 6, 24);
    wr!(BitCodecLE, false, u32, 6, 25);
    wr!(BitCodecLE, false, u32, 6, 26);
    wr!(BitCodecLE, false, u32, 6, 27);
    wr!(BitCodecLE, false, u32, 6, 28);
    wr!(BitCodecLE, false, u32, 6, 29);
    wr!(BitCodecLE, false, u32, 6, 30);
    wr!(BitCodecLE, false, u32, 6, 31);
    wr!(BitCodecLE, false, u32, 6, 32);
}
#[kani::proof]
fn wr_le_6_1() {
    wr!(BitCodecLE, false, u64, 6, 33);
    wr!(BitCodecLE, false, u64, 6, 34);
    wr!(BitCodecLE, false, u64, 6, 35);
    wr!(BitCodecLE, false, u64, 6, 36);
    wr!(BitCodecLE, false, u64, 6, 37);
    wr!(BitCodecLE, false, u64, 6, 38);
    wr!(BitCodecLE, false, u64, 6, 39);
    wr!(BitCodecLE, false, u64, 6, 40);
    wr!(BitCodecLE, false, u64, 6, 41);
    wr!(BitCodecLE, false, u64, 6, 42);
    wr!(BitCodecLE, false, u64, 6, 43);
    wr!(BitCodecLE, false, u64, 6, 44);
    wr!(BitCodecLE, false, u64, 6, 45);
    wr!(BitCodecLE, false, u64, 6, 46);
    wr!(BitCodecLE, false, u64, 6, 47);
    wr!(BitCodecLE, false, u64, 6, 48);
    wr!(BitCodecLE, false, u64, 6, 49);
    wr!(BitCodecLE, false, u64, 6, 50);
    wr!(BitCodecLE, false, u64, 6, 51);
    wr!(BitCodecLE, false, u64, 6, 52);
    wr!(BitCodecLE, false, u64, 6, 53);
    wr!(BitCodecLE, false, u64, 6, 54);
    wr!(BitCodecLE, false, u64, 6, 55);
    wr!(BitCodecLE, false, u64, 6, 56);
    wr!(BitCodecLE, false, u64, 6, 57);
    wr!(BitCodecLE, false, u64, 6, 58);
    wr!(BitCodecLE, false, u64, 6, 59);
    wr!(BitCodecLE, false, u64, 6, 60);
    wr!(BitCodecLE, false, u64, 6, 61);
    wr!(BitCodecLE, false, u64, 6, 62);
    wr!(BitCodecLE, false, u64, 6, 63);
    wr!(BitCodecLE, false, u64, 6, 64);
}
#[kani::proof]
fn rd_le_7_0() {
    rd!(BitCodecLE, false, u8, 7, 1);
    rd!(BitCodecLE, false, u8, 7, 2);
    rd!(BitCodecLE, false, u8, 7, 3);
    rd!(BitCodecLE, false, u8, 7, 4);
    rd!(BitCodecLE, false, u8, 7, 5);
    rd!(BitCodecLE, false, u8, 7, 6);
    rd!(BitCodecLE, false, u8, 7, 7);
    rd!(BitCodecLE, false, u8, 7, 8);
    rd!(BitCodecLE, false, u16, 7, 9);
    rd!(BitCodecLE, false, u16, 7, 10);
    rd!(BitCodecLE, false, u16, 7, 11);
    rd!(BitCodecLE, false, u16, 7, 12);
    rd!(BitCodecLE, false, u16, 7, 13);
    rd!(BitCodecLE, false, u16, 7, 14);
    rd!(BitCodecLE, false, u16, 7, 15);
    rd!(BitCodecLE, false, u16, 7, 16);
    rd!(BitCodecLE, false, u32, 7, 17);
    rd!(BitCodecLE, false, u32, 7, 18);
    rd!(BitCodecLE, false, u32, 7, 19);
    rd!(BitCodecLE, false, u32, 7, 20);
    rd!(BitCodecLE, false, u32, 7, 21);
    rd!(BitCodecLE, false, u32, 7, 22);
    rd!(BitCodecLE, false, u32, 7, 23);
    rd!(BitCodecLE, false, u32, 7, 24);
    rd!(BitCodecLE, false, u32, 7, 25);
    rd!(BitCodecLE, false, u32, 7, 26);
    rd!(BitCodecLE, false, u32, 7, 27);
    rd!(BitCodecLE, false, u32, 7, 28);
    rd!(BitCodecLE, false, u32, 7, 29);
    rd!(BitCodecLE, false, u32, 7, 30);
    rd!(BitCodecLE, false, u32, 7, 31);
    rd!(BitCodecLE, false, u32, 7, 32);
}
#[kani::proof]
fn rd_le_7_1() {
    rd!(BitCodecLE, false, u64, 7, 33);
    rd!(BitCodecLE, false, u64, 7, 34);
    rd!(BitCodecLE, false, u64, 7, 35);
    rd!(BitCodecLE, false, u64, 7, 36);
    rd!(BitCodecLE, false, u64, 7, 37);
    rd!(BitCodecLE, false, u64, 7, 38);
    rd!(BitCodecLE, false, u64, 7, 39);
    rd!(BitCodecLE, false, u64, 7, 40);
    rd!(BitCodecLE, false, u64, 7, 41);
    rd!(BitCodecLE, false, u64, 7, 42);
    rd!(BitCodecLE, false, u64, 7, 43);
    rd!(BitCodecLE, false, u64, 7, 44);
    rd!(BitCodecLE, false, u64, 7, 45);
    rd!(BitCodecLE, false, u64, 7, 46);
    rd!(BitCodecLE, false, u64, 7, 47);
    rd!(BitCodecLE, false, u64, 7, 48);
    rd!(BitCodecLE, false, u64, 7, 49);
    rd!(BitCodecLE, false, u64, 7, 50);
    rd!(BitCodecLE, false, u64, 7, 51);
    rd!(BitCodecLE, false, u64, 7, 52);
    rd!(BitCodecLE, false, u64, 7, 53);
    rd!(BitCodecLE, false, u64, 7, 54);
    rd!(BitCodecLE, false, u64, 7, 55);
    rd!(BitCodecLE, false, u64, 7, 56);
    rd!(BitCodecLE, false, u64, 7, 57);
    rd!(BitCodecLE, false, u64, 7, 58);
    rd!(BitCodecLE, false, u64, 7, 59);
    rd!(BitCodecLE, false, u64, 7, 60);
    rd!(BitCodecLE, false, u64, 7, 61);
    rd!(BitCodecLE, false, u64, 7, 62);
    rd!(BitCodecLE, false, u64, 7, 63);
    rd!(BitCodecLE, false, u64, 7, 64);
}
#[kani::proof]
fn wr_le_7_0() {
    wr!(BitCodecLE, false, u8, 7, 1);
    wr!(BitCodecLE, false, u8, 7, 2);
    wr!(BitCodecLE, false, u8, 7, 3);
    wr!(BitCodecLE, false, u8, 7, 4);
    wr!(BitCodecLE, false, u8, 7, 5);
    wr!(BitCodecLE, false, u8, 7, 6);
    wr!(BitCodecLE, false, u8, 7, 7);
    wr!(BitCodecLE, false, u8, 7, 8);
    wr!(BitCodecLE, false, u16, 7, 9);
    wr!(BitCodecLE, false, u16, 7, 10);
    wr!(BitCodecLE, false, u16, 7, 11);
    wr!(BitCodecLE, false, u16, 7, 12);
    wr!(BitCodecLE, false, u16, 7, 13);
    wr!(BitCodecLE, false, u16, 7, 14);
    wr!(BitCodecLE, false, u16, 7, 15);
    wr!(BitCodecLE, false, u16, 7, 16);
    wr!(BitCodecLE, false, u32, 7, 17);
    wr!(BitCodecLE, false, u32, 7, 18);
    wr!(BitCodecLE, false, u32, 7, 19);
    wr!(BitCodecLE, false, u32, 7, 20);
    wr!(BitCodecLE, false, u32, 7, 21);
    wr!(BitCodecLE, false, u32, 7, 22);
    wr!(BitCodecLE, false, u32, 7, 23);
    wr!(BitCodecLE, false, u32, 7, 24);
    wr!(BitCodecLE, false, u32, 7, 25);
    wr!(BitCodecLE, false, u32, 7, 26);
    wr!(BitCodecLE, false, u32, 7, 27);
    wr!(BitCodecLE, false, u32, 7, 28);
    wr!(BitCodecLE, false, u32, 7, 29);
    wr!(BitCodecLE, false, u32, 7, 30);
    wr!(BitCodecLE, false, u32, 7, 31);
    wr!(BitCodecLE, false, u32, 7, 32);
}
#[kani::proof]
fn wr_le_7_1() {
    wr!(BitCodecLE, false, u64, 7, 33);
    wr!(BitCodecLE, false, u64, 7, 34);
    wr!(BitCodecLE, false, u64, 7, 35);
    wr!(BitCodecLE, false, u64, 7, 36);
    wr!(BitCodecLE, false, u64, 7, 37);
    wr!(BitCodecLE, false, u64, 7, 38);
    wr!(BitCodecLE, false, u64, 7, 39);
    wr!(BitCodecLE, false, u64, 7, 40);
    wr!(BitCodecLE, false, u64, 7, 41);
    wr!(BitCodecLE, false, u64, 7, 42);
    wr!(BitCodecLE, false, u64, 7, 43);
    wr!(BitCodecLE, false, u64, 7, 44);
    wr!(BitCodecLE, false, u64, 7, 45);
    wr!(BitCodecLE, false, u64, 7, 46);
    wr!(BitCodecLE, false, u64, 7, 47);
    wr!(BitCodecLE, false, u64, 7, 48);
    wr!(BitCodecLE, false, u64, 7, 49);
    wr!(BitCodecLE, false, u64, 7, 50);
    wr!(BitCodecLE, false, u64, 7, 51);
    wr!(BitCodecLE, false, u64, 7, 52);
    wr!(BitCodecLE, false, u64, 7, 53);
    wr!(BitCodecLE, false, u64, 7, 54);
    wr!(BitCodecLE, false, u64, 7, 55);
    wr!(BitCodecLE, false, u64, 7, 56);
    wr!(BitCodecLE, false, u64, 7, 57);
    wr!(BitCodecLE, false, u64, 7, 58);
    wr!(BitCodecLE, false, u64, 7, 59);
    wr!(BitCodecLE, false, u64, 7, 60);
    wr!(BitCodecLE, false, u64, 7, 61);
    wr!(BitCodecLE, false, u64, 7, 62);
    wr!(BitCodecLE, false, u64, 7, 63);
    wr!(BitCodecLE, false, u64, 7, 64);
}
#[kani::proof]
fn rd_be_0_0() {
    rd!(BitCodecBE, true, u8, 0, 1);
    rd!(BitCodecBE, true, u8, 0, 2);
    rd!(BitCodecBE, true, u8, 0, 3);
    rd!(BitCodecBE, true, u8, 0, 4);
    rd!(BitCodecBE, true, u8, 0, 5);
    rd!(BitCodecBE, true, u8, 0, 6);
    rd!(BitCodecBE, true, u8, 0, 7);
    rd!(BitCodecBE, true, u8, 0, 8);
    rd!(BitCodecBE, true, u16, 0, 9);
    rd!(BitCodecBE, true, u16, 0, 10);
    rd!(BitCodecBE, true, u16, 0, 11);
    rd!(BitCodecBE, true, u16, 0, 12);
    rd!(BitCodecBE, true, u16, 0, 13);
    rd!(BitCodecBE, true, u16, 0, 14);
    rd!(BitCodecBE, true, u16, 0, 15);
    rd!(BitCodecBE, true, u16, 0, 16);
    rd!(BitCodecBE, true, u32, 0, 17);
    rd!(BitCodecBE, true, u32, 0, 18);
    rd!(BitCodecBE, true, u32, 0, 19);
    rd!(BitCodecBE, true, u32, 0, 20);
    rd!(BitCodecBE, true, u32, 0, 21);
    rd!(BitCodecBE, true, u32, 0, 22);
    rd!(BitCodecBE, true, u32, 0, 23);
    rd!(BitCodecBE, true, u32, 0, 24);
    rd!(BitCodecBE, true, u32, 0, 25);
    rd!(BitCodecBE, true, u32, 0, 26);
    rd!(BitCodecBE, true, u32, 0, 27);
    rd!(BitCodecBE, true, u32, 0, 28);
    rd!(BitCodecBE, true, u32, 0, 29);
    rd!(BitCodecBE, true, u32, 0, 30);
    rd!(BitCodecBE, true, u32, 0, 31);
    rd!(BitCodecBE, true, u32, 0, 32);
}
#[kani::proof]
fn rd_be_0_1() {
    rd!(BitCodecBE, true, u64, 0, 33);
    rd!(BitCodecBE, true, u64, 0, 34);
    rd!(BitCodecBE, true, u64, 0, 35);
    rd!(BitCodecBE, true, u64, 0, 36);
    rd!(BitCodecBE, true, u64, 0, 37);
    rd!(BitCodecBE, true, u64, 0, 38);
    rd!(BitCodecBE, true, u64, 0, 39);
    rd!(BitCodecBE, true, u64, 0, 40);
    rd!(BitCodecBE, true, u64, 0, 41);
    rd!(BitCodecBE, true, u64, 0, 42);
    rd!(BitCodecBE, true, u64, 0, 43);
    rd!(BitCodecBE, true, u64, 0, 44);
    rd!(BitCodecBE, true, u64, 0, 45);
    rd!(BitCodecBE, true, u64, 0, 46);
    rd!(BitCodecBE, true, u64, 0, 47);
    rd!(BitCodecBE, true, u64, 0, 48);
    rd!(BitCodecBE, true, u64, 0, 49);
    rd!(BitCodecBE, true, u64, 0, 50);
    rd!(BitCodecBE, true, u64, 0, 51);
    rd!(BitCodecBE, true, u64, 0, 52);
    rd!(BitCodecBE, true, u64, 0, 53);
    rd!(BitCodecBE, true, u64, 0, 54);
    rd!(BitCodecBE, true, u64, 0, 55);
    rd!(BitCodecBE, true, u64, 0, 56);
    rd!(BitCodecBE, true, u64, 0, 57);
    rd!(BitCodecBE, true, u64, 0, 58);
    rd!(BitCodecBE, true, u64, 0, 59);
    rd!(BitCodecBE, true, u64, 0, 60);
    rd!(BitCodecBE, true, u64, 0, 61);
    rd!(BitCodecBE, true, u64, 0, 62);
    rd!(BitCodecBE, true, u64, 0, 63);
    rd!(BitCodecBE, true, u64, 0, 64);
}
#[kani::proof]
fn wr_be_0_0() {
    wr!(BitCodecBE, true, u8, 0, 1);
    wr!(BitCodecBE, true, u8, 0, 2);
    wr!(BitCodecBE, true, u8, 0, 3);
    wr!(BitCodecBE, true, u8, 0, 4);
    wr!(BitCodecBE, true, u8, 0, 5);
    wr!(BitCodecBE, true, u8, 0, 6);
    wr!(BitCodecBE, true, u8, 0, 7);
    wr!(BitCodecBE, true, u8, 0, 8);
    wr!(BitCodecBE, true, u16, 0, 9);
    wr!(BitCodecBE, true, u16, 0, 10);
    wr!(BitCodecBE, true, u16, 0, 11);
    wr!(BitCodecBE, true, u16, 0, 12);
    wr!(BitCodecBE, true, u16, 0, 13);
    wr!(BitCodecBE, true, u16, 0, 14);
    wr!(BitCodecBE, true, u16, 0, 15);
    wr!(BitCodecBE, true, u16, 0, 16);
    wr!(BitCodecBE, true, u32, 0, 17);
    wr!(BitCodecBE, true, u32, 0, 18);
    wr!(BitCodecBE, true, u32, 0, 19);
    wr!(BitCodecBE, true, u32, 0, 20);
    wr!(BitCodecBE, true, u32, 0, 21);
    wr!(BitCodecBE, true, u32, 0, 22);
    wr!(BitCodecBE, true, u32, 0, 23);
    wr!(BitCodecBE, true, u32, 0, 24);
    wr!(BitCodecBE, true, u32, 0, 25);
    wr!(BitCodecBE, true, u32, 0, 26);
    wr!(BitCodecBE, true, u32, 0, 27);
    wr!(BitCodecBE, true, u32, 0, 28);
    wr!(BitCodecBE, true, u32, 0, 29);
    wr!(BitCodecBE, true, u32, 0, 30);
    wr!(BitCodecBE, true, u32, 0, 31);
    wr!(BitCodecBE, true, u32, 0, 32);
}
#[kani::proof]
fn wr_be_0_1() {
    wr!(BitCodecBE, true, u64, 0, 33);
    wr!(BitCodecBE, true, u64, 0, 34);
    wr!(BitCodecBE, true, u64, 0, 35);
    wr!(BitCodecBE, true, u64, 0, 36);
    wr!(BitCodecBE, true, u64, 0, 37);
    wr!(BitCodecBE, true, u64, 0, 38);
    wr!(BitCodecBE, true, u64, 0, 39);
    wr!(BitCodecBE, true, u64, 0, 40);
    wr!(BitCodecBE, true, u64, 0, 41);
    wr!(BitCodecBE, true, u64, 0, 42);
    wr!(BitCodecBE, true, u64, 0, 43);
    wr!(BitCodecBE, true, u64, 0, 44);
    wr!(BitCodecBE, true, u64, 0, 45);
    wr!(BitCodecBE, true, u64, 0, 46);
    wr!(BitCodecBE, true, u64, 0, 47);
    wr!(BitCodecBE, true, u64, 0, 48);
    wr!(BitCodecBE, true, u64, 0, 49);
    wr!(BitCodecBE, true, u64, 0, 50);
    wr!(BitCodecBE, true, u64, 0, 51);
    wr!(BitCodecBE, true, u64, 0, 52);
    wr!(BitCodecBE, true, u64, 0, 53);
    wr!(BitCodecBE, true, u64, 0, 54);
    wr!(BitCodecBE, true, u64, 0, 55);
    wr!(BitCodecBE, true, u64, 0, 56);
    wr!(BitCodecBE, true, u64, 0, 57);
    wr!(BitCodecBE, true, u64, 0, 58);
    wr!(BitCodecBE, true, u64, 0, 59);
    wr!(BitCodecBE, true, u64, 0, 60);
    wr!(BitCodecBE, true, u64, 0, 61);
    wr!(BitCodecBE, true, u64, 0, 62);
    wr!(BitCodecBE, true, u64, 0, 63);
    wr!(BitCodecBE, true, u64, 0, 64);
}
#[kani::proof]
fn rd_be_1_0() {
    rd!(BitCodecBE, true, u8, 1, 1);
    rd!(BitCodecBE, true, u8, 1, 2);
    rd!(BitCodecBE, true, u8, 1, 3);
    rd!(BitCodecBE, true, u8, 1, 4);
    rd!(BitCodecBE, true, u8, 1, 5);
    rd!(BitCodecBE, true, u8, 1, 6);
    rd!(BitCodecBE, true, u8, 1, 7);
    rd!(BitCodecBE, true, u8, 1, 8);
    rd!(BitCodecBE, true, u16, 1, 9);
    rd!(BitCodecBE, true, u16, 1, 10);
    rd!(BitCodecBE, true, u16, 1, 11);
    rd!(BitCodecBE, true, u16, 1, 12);
    rd!(BitCodecBE, true, u16, 1, 13);
    rd!(BitCodecBE, true, u16, 1, 14);
    rd!(BitCodecBE, true, u16, 1, 15);
    rd!(BitCodecBE, true, u16, 1, 16);
    rd!(BitCodecBE, true, u32, 1, 17);
    rd!(BitCodecBE, true, u32, 1, 18);
    rd!(BitCodecBE, true, u32, 1, 19);
    rd!(BitCodecBE, true, u32, 1, 20);
    rd!(BitCodecBE, true, u32, 1, 21);
    rd!(BitCodecBE, true, u32, 1, 22);
    rd!(BitCodecBE, true, u32, 1, 23);
    rd!(BitCodecBE, true, u32, 1, 24);
    rd!(BitCodecBE, true, u32, 1, 25);
    rd!(BitCodecBE, true, u32, 1, 26);
    rd!(BitCodecBE, true, u32, 1, 27);
    rd!(BitCodecBE, true, u32, 1, 28);
    rd!(BitCodecBE, true, u32, 1, 29);
    rd!(BitCodecBE, true, u32, 1, 30);
    rd!(BitCodecBE, true, u32, 1, 31);
    rd!(BitCodecBE, true, u32, 1, 32);
}
#[kani::proof]
fn rd_be_1_1() {
    rd!(BitCodecBE, true, u64, 1, 33);
    rd!(BitCodecBE, true, u64, 1, 34);
    rd!(BitCodecBE, true, u64, 1, 35);
    rd!(BitCodecBE, true, u64, 1, 36);
    rd!(BitCodecBE, true, u64, 1, 37);
    rd!(BitCodecBE, true, u64, 1, 38);
    rd!(BitCodecBE, true, u64, 1, 39);
    rd!(BitCodecBE, true, u64, 1, 40);
    rd!(BitCodecBE, true, u64, 1, 41);
    rd!(BitCodecBE, true, u64, 1, 42);
    rd!(BitCodecBE, true, u64, 1, 43);
    rd!(BitCodecBE, true, u64, 1, 44);
    rd!(BitCodecBE, true, u64, 1, 45);
    rd!(BitCodecBE, true, u64, 1, 46);
    rd!(BitCodecBE, true, u64, 1, 47);
    rd!(BitCodecBE, true, u64, 1, 48);
    rd!(BitCodecBE, true, u64, 1, 49);
    rd!(BitCodecBE, true, u64, 1, 50);
    rd!(BitCodecBE, true, u64, 1, 51);
    rd!(BitCodecBE, true, u64, 1, 52);
    rd!(BitCodecBE, true, u64, 1, 53);
    rd!(BitCodecBE, true, u64, 1, 54);
    rd!(BitCodecBE, true, u64, 1, 55);
    rd!(BitCodecBE, true, u64, 1, 56);
    rd!(BitCodecBE, true, u64, 1, 57);
    rd!(BitCodecBE, true, u64, 1, 58);
    rd!(BitCodecBE, true, u64, 1, 59);
    rd!(BitCodecBE, true, u64, 1, 60);
    rd!(BitCodecBE, true, u64, 1, 61);
    rd!(BitCodecBE, true, u64, 1, 62);
    rd!(BitCodecBE, true, u64, 1, 63);
    rd!(BitCodecBE, true, u64, 1, 64);
}
#[kani::proof]
fn wr_be_1_0() {
    wr!(BitCodecBE, true, u8, 1, 1);
    wr!(BitCodecBE, true, u8, 1, 2);
    wr!(BitCodecBE, true, u8, 1, 3);
    wr!(BitCodecBE, true, u8, 1, 4);
    wr!(BitCodecBE, true, u8, 1, 5);
    wr!(BitCodecBE, true, u8, 1, 6);
    wr!(BitCodecBE, true, u8, 1, 7);
    wr!(BitCodecBE, true, u8, 1, 8);
    wr!(BitCodecBE, true, u16, 1, 9);
    wr!(BitCodecBE, true, u16, 1, 10);
    wr!(BitCodecBE, true, u16, 1, 11);
    wr!(BitCodecBE, true, u16, 1, 12);
    wr!(BitCodecBE, true, u16, 1, 13);
    wr!(BitCodecBE, true, u16, 1, 14);
    wr!(BitCodecBE, true, u16, 1, 15);
    wr!(BitCodecBE, true, u16, 1, 16);
    wr!(BitCodecBE, true, u32, 1, 17);
    wr!(BitCodecBE, true, u32, 1, 18);
    wr!(BitCodecBE, true, u32, 1, 19);
    wr!(BitCodecBE, true, u32, 1, 20);
    wr!(BitCodecBE, true, u32, 1, 21);
    wr!(BitCodecBE, true, u32, 1, 22);
    wr!(BitCodecBE, true, u32, 1, 23);
    wr!(BitCodecBE, true, u32, 1, 24);
    wr!(BitCodecBE, true, u32, 1, 25);
    wr!(BitCodecBE, true, u32, 1, 26);
    wr!(BitCodecBE, true, u32, 1, 27);
    wr!(BitCodecBE, true, u32, 1, 28);
    wr!(BitCodecBE, true, u32, 1, 29);
    wr!(BitCodecBE, true, u32, 1, 30);
    wr!(BitCodecBE, true, u32, 1, 31);
    wr!(BitCodecBE, true, u32, 1, 32);
}
#[kani::proof]
fn wr_be_1_1() {
    wr!(BitCodecBE, true, u64, 1, 33);
    wr!(BitCodecBE, true, u64, 1, 34);
    wr!(BitCodecBE, true, u64, 1, 35);
    wr!(BitCodecBE, true, u64, 1, 36);
    wr!(BitCodecBE, true, u64, 1, 37);
    wr!(BitCodecBE, true, u64, 1, 38);
    wr!(BitCodecBE, true, u64, 1, 39);
    wr!(BitCodecBE, true, u64, 1, 40);
    wr!(BitCodecBE, true, u64, 1, 41);
    wr!(BitCodecBE, true, u64, 1, 42);
    wr!(BitCodecBE, true, u64, 1, 43);
    wr!(BitCodecBE, true, u64, 1, 44);
    wr!(BitCodecBE, true, u64, 1, 45);
    wr!(BitCodecBE, true, u64, 1, 46);
    wr!(BitCodecBE, true, u64, 1, 47);
    wr!(BitCodecBE, true, u64, 1, 48);
    wr!(BitCodecBE, true, u64, 1, 49);
    wr!(BitCodecBE, true, u64, 1, 50);
    wr!(BitCodecBE, true, u64, 1, 51);
    wr!(BitCodecBE, true, u64, 1, 52);
    wr!(BitCodecBE, true, u64, 1, 53);
    wr!(BitCodecBE, true, u64, 1, 54);
    wr!(BitCodecBE, true, u64, 1, 55);
    wr!(BitCodecBE, true, u64, 1, 56);
    wr!(BitCodecBE, true, u64, 1, 57);
    wr!(BitCodecBE, true, u64, 1, 58);
    wr!(BitCodecBE, true, u64, 1, 59);
    wr!(BitCodecBE, true, u64, 1, 60);
    wr!(BitCodecBE, true, u64, 1, 61);
    wr!(BitCodecBE, true, u64, 1, 62);
    wr!(BitCodecBE, true, u64, 1, 63);
    wr!(BitCodecBE, true, u64, 1, 64);
}
#[kani::proof]
fn rd_be_2_0() {
    rd!(BitCodecBE, true, u8, 2, 1);
    rd!(BitCodecBE, true, u8, 2, 2);
    rd!(BitCodecBE, true, u8, 2, 3);
    rd!(BitCodecBE, true, u8, 2, 4);
    rd!(BitCodecBE, true, u8, 2, 5);
    rd!(BitCodecBE, true, u8, 2, 6);
    rd!(BitCodecBE, true, u8, 2, 7);
    rd!(BitCodecBE, true, u8, 2, 8);
    rd!(BitCodecBE, true, u16, 2, 9);
    rd!(BitCodecBE, true, u16, 2, 10);
    rd!(BitCodecBE, true, u16, 2, 11);
    rd!(BitCodecBE, true, u16, 2, 12);
    rd!(BitCodecBE, true, u16, 2, 13);
    rd!(BitCodecBE, true, u16, 2, 14);
    rd!(BitCodecBE, true, u16, 2, 15);
    rd!(BitCodecBE, true, u16, 2, 16);
    rd!(BitCodecBE, true, u32, 2, 17);
    rd!(BitCodecBE, true, u32, 2, 18);
    rd!(BitCodecBE, true, u32, 2, 19);
    rd!(BitCodecBE, true, u32, 2, 20);
    rd!(BitCodecBE, true, u32, 2, 21);
    rd!(BitCodecBE, true, u32, 2, 22);
    rd!(BitCodecBE, true, u32, 2, 23);
    rd!(BitCodecBE, true, u32, 2, 24);
    rd!(BitCodecBE, true, u32, 2, 25);
    rd!(BitCodecBE, true, u32, 2, 26);
    rd!(BitCodecBE, true, u32, 2, 27);
    rd!(BitCodecBE, true, u32, 2, 28);
    rd!(BitCodecBE, true, u32, 2, 29);
    rd!(BitCodecBE, true, u32, 2, 30);
    rd!(BitCodecBE, true, u32, 2, 31);
    rd!(BitCodecBE, true, u32, 2, 32);
}
#[kani::proof]
fn rd_be_2_1() {
    rd!(BitCodecBE, true, u64, 2, 33);
    rd!(BitCodecBE, true, u64, 2, 34);
    rd!(BitCodecBE, true, u64, 2, 35);
    rd!(BitCodecBE, true, u64, 2, 36);
    rd!(BitCodecBE, true, u64, 2, 37);
    rd!(BitCodecBE, true, u64, 2, 38);
    rd!(BitCodecBE, true, u64, 2, 39);
    rd!(BitCodecBE, true, u64, 2, 40);
    rd!(BitCodecBE, true, u64, 2, 41);
    rd!(BitCodecBE, true, u64, 2, 42);
    rd!(BitCodecBE, true, u64, 2, 43);
    rd!(BitCodecBE, true, u64, 2, 44);
    rd!(BitCodecBE, true, u64, 2, 45);
    rd!(BitCodecBE, true, u64, 2, 46);
    rd!(BitCodecBE, true, u64, 2, 47);
    rd!(BitCodecBE, true, u64, 2, 48);
    rd!(BitCodecBE, true, u64, 2, 49);
    rd!(BitCodecBE, true, u64, 2, 50);
    rd!(BitCodecBE, true, u64, 2, 51);
    rd!(BitCodecBE, true, u64, 2, 52);
    rd!(BitCodecBE, true, u64, 2, 53);
    rd!(BitCodecBE, true, u64, 2, 54);
    rd!(BitCodecBE, true, u64, 2, 55);
    rd!(BitCodecBE, true, u64, 2, 56);
    rd!(BitCodecBE, true, u64, 2, 57);
    rd!(BitCodecBE, true, u64, 2, 58);
    rd!(BitCodecBE, true, u64, 2, 59);
    rd!(BitCodecBE, true, u64, 2, 60);
    rd!(BitCodecBE, true, u64, 2, 61);
    rd!(BitCodecBE, true, u64, 2, 62);
    rd!(BitCodecBE, true, u64, 2, 63);
    rd!(BitCodecBE, true, u64, 2, 64);
}
#[kani::proof]
fn wr_be_2_0() {
    wr!(BitCodecBE, true, u8, 2, 1);
    wr!(BitCodecBE, true, u8, 2, 2);
    wr!(BitCodecBE, true, u8, 2, 3);
    wr!(BitCodecBE, true, u8, 2, 4);
    wr!(BitCodecBE, true, u8, 2, 5);
    wr!(BitCodecBE, true, u8, 2, 6);
    wr!(BitCodecBE, true, u8, 2, 7);
    wr!(BitCodecBE, true, u8, 2, 8);
    wr!(BitCodecBE, true, u16, 2, 9);
    wr!(BitCodecBE, true, u16, 2, 10);
    wr!(BitCodecBE, true, u16, 2, 11);
    wr!(BitCodecBE, true, u16, 2, 12);
    wr!(BitCodecBE, true, u16, 2, 13);
    wr!(BitCodecBE, true, u16, 2, 14);
    wr!(BitCodecBE, true, u16, 2, 15);
    wr!(BitCodecBE, true, u16, 2, 16);
    wr!(BitCodecBE, true, u32, 2, 17);
    wr!(BitCodecBE, true, u32, 2, 18);
    wr!(BitCodecBE, true, u32, 2, 19);
    wr!(BitCodecBE, true, u32, 2, 20);
    wr!(BitCodecBE, true, u32, 2, 21);
    wr!(BitCodecBE, true, u32, 2, 22);
    wr!(BitCodecBE, true, u32, 2, 23);
    wr!(BitCodecBE, true, u32, 2, 24);
    wr!(BitCodecBE, true, u32, 2, 25);
    wr!(BitCodecBE, true, u32, 2, 26);
    wr!(BitCodecBE, true, u32, 2, 27);
    wr!(BitCodecBE, true, u32, 2, 28);
    wr!(BitCodecBE, true, u32, 2, 29);
    wr!(BitCodecBE, true, u32, 2, 30);
    wr!(BitCodecBE, true, u32, 2, 31);
    wr!(BitCodecBE, true, u32, 2, 32);
}
#[kani::proof]
fn wr_be_2_1() {
    wr!(BitCodecBE, true, u64, 2, 33);
    wr!(BitCodecBE, true, u64, 2, 34);
    wr!(BitCodecBE, true, u64, 2, 35);
    wr!(BitCodecBE, true, u64, 2, 36);
    wr!(BitCodecBE, true, u64, 2, 37);
    wr!(BitCodecBE, true, u64, 2, 38);
    wr!(BitCodecBE, true, u64, 2, 39);
    wr!(BitCodecBE, true, u64, 2, 40);
    wr!(BitCodecBE, true, u64, 2, 41);
    wr!(BitCodecBE, true, u64, 2, 42);
    wr!(BitCodecBE, true, u64, 2, 43);
    wr!(BitCodecBE, true, u64, 2, 44);
    wr!(BitCodecBE, true, u64, 2, 45);
    wr!(BitCodecBE, true, u64, 2, 46);
    wr!(BitCodecBE, true, u64, 2, 47);
    wr!(BitCodecBE, true, u64, 2, 48);
    wr!(BitCodecBE, true, u64, 2, 49);
    wr!(BitCodecBE, true, u64, 2, 50);
    wr!(BitCodecBE, true, u64, 2, 51);
    wr!(BitCodecBE, true, u64, 2, 52);
    wr!(BitCodecBE, true, u64, 2, 53);
    wr!(BitCodecBE, true, u64, 2, 54);
    wr!(BitCodecBE, true, u64, 2, 55);
    wr!(BitCodecBE, true, u64, 2, 56);
    wr!(BitCodecBE, true, u64, 2, 57);
    wr!(BitCodecBE, true, u64, 2, 58);
    wr!(BitCodecBE, true, u64, 2, 59);
    wr!(BitCodecBE, true, u64, 2, 60);
    wr!(BitCodecBE, true, u64, 2, 61);
    wr!(BitCodecBE, true, u64, 2, 62);
    wr!(BitCodecBE, true, u64, 2, 63);
    wr!(BitCodecBE, true, u64, 2, 64);
}
#[kani::proof]
fn rd_be_3_0() {
    rd!(BitCodecBE, true, u8, 3, 1);
    rd!(BitCodecBE, true, u8, 3, 2);
    rd!(BitCodecBE, true, u8, 3, 3);
    rd!(BitCodecBE, true, u8, 3, 4);
    rd!(BitCodecBE, true, u8, 3, 5);
    rd!(BitCodecBE, true, u8, 3, 6);
    rd!(BitCodecBE, true, u8, 3, 7);
    rd!(BitCodecBE, true, u8, 3, 8);
    rd!(BitCodecBE, true, u16, 3, 9);
    rd!(BitCodecBE, true, u16, 3, 10);
    rd!(BitCodecBE, true, u16, 3, 11);
    rd!(BitCodecBE, true, u16, 3, 12);
    rd!(BitCodecBE, true, u16, 3, 13);
    rd!(BitCodecBE, true, u16, 3, 14);
    rd!(BitCodecBE, true, u16, 3, 15);
    rd!(BitCodecBE, true, u16, 3, 16);
    rd!(BitCodecBE, true, u32, 3, 17);
    rd!(BitCodecBE, true, u32, 3, 18);
    rd!(BitCodecBE, true, u32, 3, 19);
    rd!(BitCodecBE, true, u32, 3, 20);
    rd!(BitCodecBE, true, u32, 3, 21);
    rd!(BitCodecBE, true, u32, 3, 22);
    rd!(BitCodecBE, true, u32, 3, 23);
    rd!(BitCodecBE, true, u32, 3, 24);
    rd!(BitCodecBE, true, u32, 3, 25);
    rd!(BitCodecBE, true, u32, 3, 26);
    rd!(BitCodecBE, true, u32, 3, 27);
    rd!(BitCodecBE, true, u32, 3, 28);
    rd!(BitCodecBE, true, u32, 3, 29);
    rd!(BitCodecBE, true, u32, 3, 30);
    rd!(BitCodecBE, true, u32, 3, 31);
    rd!(BitCodecBE, true, u32, 3, 32);
}
#[kani::proof]
fn rd_be_3_1() {
    rd!(BitCodecBE, true, u64, 3, 33);
    rd!(BitCodecBE, true, u64, 3, 34);
    rd!(BitCodecBE, true, u64, 3, 35);
    rd!(BitCodecBE, true, u64, 3, 36);
    rd!(BitCodecBE, true, u64, 3, 37);
    rd!(BitCodecBE, true, u64, 3, 38);
    rd!(BitCodecBE, true, u64, 3, 39);
    rd!(BitCodecBE, true, u64, 3, 40);
    rd!(BitCodecBE, true, u64, 3, 41);
    rd!(BitCodecBE, true, u64, 3, 42);
    rd!(BitCodecBE, true, u64, 3, 43);
    rd!(BitCodecBE, true, u64, 3, 44);
    rd!(BitCodecBE, true, u64, 3, 45);
    rd!(BitCodecBE, true, u64, 3, 46);
    rd!(BitCodecBE, true, u64, 3, 47);
    rd!(BitCodecBE, true, u64, 3, 48);
    rd!(BitCodecBE, true, u64, 3, 49);
    rd!(BitCodecBE, true, u64, 3, 50);
    rd!(BitCodecBE, true, u64, 3, 51);
    rd!(BitCodecBE, true, u64, 3, 52);
    rd!(BitCodecBE, true, u64, 3, 53);
    rd!(BitCodecBE, true, u64, 3, 54);
    rd!(BitCodecBE, true, u64, 3, 55);
    rd!(BitCodecBE, true, u64, 3, 56);
    rd!(BitCodecBE, true, u64, 3, 57);
    rd!(BitCodecBE, true, u64, 3, 58);
    rd!(BitCodecBE, true, u64, 3, 59);
    rd!(BitCodecBE, true, u64, 3, 60);
    rd!(BitCodecBE, true, u64, 3, 61);
    rd!(BitCodecBE, true, u64, 3, 62);
    rd!(BitCodecBE, true, u64, 3, 63);
    rd!(BitCodecBE, true, u64, 3, 64);
}
#[kani::proof]
fn wr_be_3_0() {
    wr!(BitCodecBE, true, u8, 3, 1);
    wr!(BitCodecBE, true, u8, 3, 2);
    wr!(BitCodecBE, true, u8, 3, 3);
    wr!(BitCodecBE, true, u8, 3, 4);
    wr!(BitCodecBE, true, u8, 3, 5);
    wr!(BitCodecBE, true, u8, 3, 6);
    wr!(BitCodecBE, true, u8, 3, 7);
    wr!(BitCodecBE, true, u8, 3, 8);
    wr!(BitCodecBE, true, u16, 3, 9);
    wr!(BitCodecBE, true, u16, 3, 10);
    wr!(BitCodecBE, true, u16, 3, 11);
    wr!(BitCodecBE, true, u16, 3, 12);
    wr!(BitCodecBE, true, u16, 3, 13);
    wr!(BitCodecBE, true, u16, 3, 14);
    wr!(BitCodecBE, true, u16, 3, 15);
    wr!(BitCodecBE, true, u16, 3, 16);
    wr!(BitCodecBE, true, u32, 3, 17);
    wr!(BitCodecBE, true, u32, 3, 18);
    wr!(BitCodecBE, true, u32, 3, 19);
    wr!(BitCodecBE, true, u32, 3, 20);
    wr!(BitCodecBE, true, u32, 3, 21);
    wr!(BitCodecBE, true, u32, 3, 22);
    wr!(BitCodecBE, true, u32, 3, 23);
    wr!(BitCodecBE, true, u32, 3, 24);
    wr!(BitCodecBE, true, u32, 3, 25);
    wr!(BitCodecBE, true, u32, 3, 26);
    wr!(BitCodecBE, true, u32, 3, 27);
    wr!(BitCodecBE, true, u32, 3, 28);
    wr!(BitCodecBE, true, u32, 3, 29);
    wr!(BitCodecBE, true, u32, 3, 30);
    wr!(BitCodecBE, true, u32, 3, 31);
    wr!(BitCodecBE, true, u32, 3, 32);
}
#[kani::proof]
fn wr_be_3_1() {
    wr!(BitCodecBE, true, u64, 3, 33);
    wr!(BitCodecBE, true, u64, 3, 34);
    wr!(BitCodecBE, true, u64, 3, 35);
    wr!(BitCodecBE, true, u64, 3, 36);
    wr!(BitCodecBE, true, u64, 3, 37);
    wr!(BitCodecBE, true, u64, 3, 38);
    wr!(BitCodecBE, true, u64, 3, 39);
    wr!(BitCodecBE, true, u64, 3, 40);
    wr!(BitCodecBE, true, u64, 3, 41);
    wr!(BitCodecBE, true, u64, 3, 42);
    wr!(BitCodecBE, true, u64, 3, 43);
    wr!(BitCodecBE, true, u64, 3, 44);
    wr!(BitCodecBE, true, u64, 3, 45);
    wr!(BitCodecBE, true, u64, 3, 46);
    wr!(BitCodecBE, true, u64, 3, 47);
    wr!(BitCodecBE, true, u64, 3, 48);
    wr!(BitCodecBE, true, u64, 3, 49);
    wr!(BitCodecBE, true, u64, 3, 50);
    wr!(BitCodecBE, true, u64, 3, 51);
    wr!(BitCodecBE, true, u64, 3, 52);
    wr!(BitCodecBE, true, u64, 3, 53);
    wr!(BitCodecBE, true, u64, 3, 54);
    wr!(BitCodecBE, true, u64, 3, 55);
    wr!(BitCodecBE, true, u64, 3, 56);
    wr!(BitCodecBE, true, u64, 3, 57);
    wr!(BitCodecBE, true, u64, 3, 58);
    wr!(BitCodecBE, true, u64, 3, 59);
    wr!(BitCodecBE, true, u64, 3, 60);
    wr!(BitCodecBE, true, u64, 3, 61);
    wr!(BitCodecBE, true, u64, 3, 62);
    wr!(BitCodecBE, true, u64, 3, 63);
    wr!(BitCodecBE, true, u64, 3, 64);
}
#[kani::proof]
fn rd_be_4_0() {
    rd!(BitCodecBE, true, u8, 4, 1);
    rd!(BitCodecBE, true, u8, 4, 2);
    rd!(BitCodecBE, true, u8, 4, 3);
    rd!(BitCodecBE, true, u8, 4, 4);
    rd!(BitCodecBE, true, u8, 4, 5);
    rd!(BitCodecBE, true, u8, 4, 6);
    rd!(BitCodecBE, true, u8, 4, 7);
    rd!(BitCodecBE, true, u8, 4, 8);
    rd!(BitCodecBE, true, u16, 4, 9);
    rd!(BitCodecBE, true, u16, 4, 10);
    rd!(BitCodecBE, true, u16, 4, 11);
    rd!(BitCodecBE, true, u16, 4, 12);
    rd!(BitCodecBE, true, u16, 4, 13);
    rd!(BitCodecBE, true, u16, 4, 14);
    rd!(BitCodecBE, true, u16, 4, 15);
    rd!(BitCodecBE, true, u16, 4, 16);
    rd!(BitCodecBE, true, u32, 4, 17);
    rd!(BitCodecBE, true, u32, 4, 18);
    rd!(BitCodecBE, true, u32, 4, 19);
    rd!(BitCodecBE, true, u32, 4, 20);
    rd!(BitCodecBE, true, u32, 4, 21);
    rd!(BitCodecBE, true, u32, 4, 22);
    rd!(BitCodecBE, true, u32, 4, 23);
    rd!(BitCodecBE, true, u32, 4, 24);
    rd!(BitCodecBE, true, u32, 4, 25);
    rd!(BitCodecBE, true, u32, 4, 26);
    rd!(BitCodecBE, true, u32, 4, 27);
    rd!(BitCodecBE, true, u32, 4, 28);
    rd!(BitCodecBE, true, u32, 4, 29);
    rd!(BitCodecBE, true, u32, 4, 30);
    rd!(BitCodecBE, true, u32, 4, 31);
    rd!(BitCodecBE, true, u32, 4, 32);
}
#[kani::proof]
fn rd_be_4_1() {
    rd!(BitCodecBE, true, u64, 4, 33);
    rd!(BitCodecBE, true, u64, 4, 34);
    rd!(BitCodecBE, true, u64, 4, 35);
    rd!(BitCodecBE, true, u64, 4, 36);
    rd!(BitCodecBE, true, u64, 4, 37);
    rd!(BitCodecBE, true, u64, 4, 38);
    rd!(BitCodecBE, true, u64, 4, 39);
    rd!(BitCodecBE, true, u64, 4, 40);
    rd!(BitCodecBE, true, u64, 4, 41);
    rd!(BitCodecBE, true, u64, 4, 42);
    rd!(BitCodecBE, true, u64, 4, 43);
    rd!(BitCodecBE, true, u64, 4, 44);
    rd!(BitCodecBE, true, u64, 4, 45);
    rd!(BitCodecBE, true, u64, 4, 46);
    rd!(BitCodecBE, true, u64, 4, 47);
    rd!(BitCodecBE, true, u64, 4, 48);
    rd!(BitCodecBE, true, u64, 4, 49);
    rd!(BitCodecBE, true, u64, 4, 50);
    rd!(BitCodecBE, true, u64, 4, 51);
    rd!(BitCodecBE, true, u64, 4, 52);
    rd!(BitCodecBE, true, u64, 4, 53);
    rd!(BitCodecBE, true, u64, 4, 54);
    rd!(BitCodecBE, true, u64, 4, 55);
    rd!(BitCodecBE, true, u64, 4, 56);
    rd!(BitCodecBE, true, u64, 4, 57);
    rd!(BitCodecBE, true, u64, 4, 58);
    rd!(BitCodecBE, true, u64, 4, 59);
    rd!(BitCodecBE, true, u64, 4, 60);
    rd!(BitCodecBE, true, u64, 4, 61);
    rd!(BitCodecBE, true, u64, 4, 62);
    rd!(BitCodecBE, true, u64, 4, 63);
    rd!(BitCodecBE, true, u64, 4, 64);
}
#[kani::proof]
fn wr_be_4_0() {
    wr!(BitCodecBE, true, u8, 4, 1);
    wr!(BitCodecBE, true, u8, 4, 2);
    wr!(BitCodecBE, true, u8, 4, 3);
    wr!(BitCodecBE, true, u8, 4, 4);
    wr!(BitCodecBE, true, u8, 4, 5);
    wr!(BitCodecBE, true, u8, 4, 6);
    wr!(BitCodecBE, true, u8, 4, 7);
    wr!(BitCodecBE, true, u8, 4, 8);
    wr!(BitCodecBE, true, u16, 4, 9);
    wr!(BitCodecBE, true, u16, 4, 10);
    wr!(BitCodecBE, true, u16, 4, 11);
    wr!(BitCodecBE, true, u16, 4, 12);
    wr!(BitCodecBE, true, u16, 4, 13);
    wr!(BitCodecBE, true, u16, 4, 14);
    wr!(BitCodecBE, true, u16, 4, 15);
    wr!(BitCodecBE, true, u16, 4, 16);
    wr!(BitCodecBE, true, u32, 4, 17);
    wr!(BitCodecBE, true, u32, 4, 18);
    wr!(BitCodecBE, true, u32, 4, 19);
    wr!(BitCodecBE, true, u32, 4, 20);
    wr!(BitCodecBE, true, u32, 4, 21);
    wr!(BitCodecBE, true, u32, 4, 22);
    wr!(BitCodecBE, true, u32, 4, 23);
    wr!(BitCodecBE, true, u32, 4, 24);
    wr!(BitCodecBE, true, u32, 4, 25);
    wr!(BitCodecBE, true, u32, 4, 26);
    wr!(BitCodecBE, true, u32, 4, 27);
    wr!(BitCodecBE, true, u32, 4, 28);
    wr!(BitCodecBE, true, u32, 4, 29);
    wr!(BitCodecBE, true, u32, 4, 30);
    wr!(BitCodecBE, true, u32, 4, 31);
    wr!(BitCodecBE, true, u32, 4, 32);
}
#[kani::proof]
fn wr_be_4_1() {
    wr!(BitCodecBE, true, u64, 4, 33);
    wr!(BitCodecBE, true, u64, 4, 34);
    wr!(BitCodecBE, true, u64, 4, 35);
    wr!(BitCodecBE, true, u64, 4, 36);
    wr!(BitCodecBE, true, u64, 4, 37);
    wr!(BitCodecBE, true, u64, 4, 38);
    wr!(BitCodecBE, true, u64, 4, 39);
    wr!(BitCodecBE, true, u64, 4, 40);
    wr!(BitCodecBE, true, u64, 4, 41);
    wr!(BitCodecBE, true, u64, 4, 42);
    wr!(BitCodecBE, true, u64, 4, 43);
    wr!(BitCodecBE, true, u64, 4, 44);
    wr!(BitCodecBE, true, u64, 4, 45);
    wr!(BitCodecBE, true, u64, 4, 46);
    wr!(BitCodecBE, true, u64, 4, 47);
    wr!(BitCodecBE, true, u64, 4, 48);
    wr!(BitCodecBE, true, u64, 4, 49);
    wr!(BitCodecBE, true, u64, 4, 50);
    wr!(BitCodecBE, true, u64, 4, 51);
    wr!(BitCodecBE, true, u64, 4, 52);
    wr!(BitCodecBE, true, u64, 4, 53);
    wr!(BitCodecBE, true, u64, 4, 54);
    wr!(BitCodecBE, true, u64, 4, 55);
    wr!(BitCodecBE, true, u64, 4, 56);
    wr!(BitCodecBE, true, u64, 4, 57);
    wr!(BitCodecBE, true, u64, 4, 58);
    wr!(BitCodecBE, true, u64, 4, 59);
    wr!(BitCodecBE, true, u64, 4, 60);
    wr!(BitCodecBE, true, u64, 4, 61);
    wr!(BitCodecBE, true, u64, 4, 62);
    wr!(BitCodecBE, true, u64, 4, 63);
    wr!(BitCodecBE, true, u64, 4, 64);
}
#[kani::proof]
fn rd_be_5_0() {
    rd!(BitCodecBE, true, u8, 5, 1);
    rd!(BitCodecBE, true, u8, 5, 2);
    rd!(BitCodecBE, true, u8, 5, 3);
    rd!(BitCodecBE, true, u8, 5, 4);
    rd!(BitCodecBE, true, u8, 5, 5);
    rd!(BitCodecBE, true, u8, 5, 6);
    rd!(BitCodecBE, true, u8, 5, 7);
    rd!(BitCodecBE, true, u8, 5, 8);
    rd!(BitCodecBE, true, u16, 5, 9);
    rd!(BitCodecBE, true, u16, 5, 10);
    rd!(BitCodecBE, true, u16, 5, 11);
    rd!(BitCodecBE, true, u16, 5, 12);
    rd!(BitCodecBE, true, u16, 5, 13);
    rd!(BitCodecBE, true, u16, 5, 14);
    rd!(BitCodecBE, true, u16, 5, 15);
    rd!(BitCodecBE, true, u16, 5, 16);
    rd!(BitCodecBE, true, u32, 5, 17);
    rd!(BitCodecBE, true, u32, 5, 18);
    rd!(BitCodecBE, true, u32, 5, 19);
    rd!(BitCodecBE, true, u32, 5, 20);
    rd!(BitCodecBE, true, u32, 5, 21);
    rd!(BitCodecBE, true, u32, 5, 22);
    rd!(BitCodecBE, true, u32, 5, 23);
    rd!(BitCodecBE, true, u32, 5, 24);
    rd!(BitCodecBE, true, u32, 5, 25);
    rd!(BitCodecBE, true, u32, 5, 26);
    rd!(BitCodecBE, true, u32, 5, 27);
    rd!(BitCodecBE, true, u32, 5, 28);
    rd!(BitCodecBE, true, u32, 5, 29);
    rd!(BitCodecBE, true, u32, 5, 30);
    rd!(BitCodecBE, true, u32, 5, 31);
    rd!(BitCodecBE, true, u32, 5, 32);
}
#[kani::proof]
fn rd_be_5_1() {
    rd!(BitCodecBE, true, u64, 5, 33);
    rd!(BitCodecBE, true, u64, 5, 34);
    rd!(BitCodecBE, true, u64, 5, 35);
    rd!(BitCodecBE, true, u64, 5, 36);
    rd!(BitCodecBE, true, u64, 5, 37);
    rd!(BitCodecBE, true, u64, 5, 38);
    rd!(BitCodecBE, true, u64, 5, 39);
    rd!(BitCodecBE, true, u64, 5, 40);
    rd!(BitCodecBE, true, u64, 5, 41);
    rd!(BitCodecBE, true, u64, 5, 42);
    rd!(BitCodecBE, true, u64, 5, 43);
    rd!(BitCodecBE, true, u64, 5, 44);
    rd!(BitCodecBE, true, u64, 5, 45);
    rd!(BitCodecBE, true, u64, 5, 46);
    rd!(BitCodecBE, true, u64, 5, 47);
    rd!(BitCodecBE, true, u64, 5, 48);
    rd!(BitCodecBE, true, u64, 5, 49);
    rd!(BitCodecBE, true, u64, 5, 50);
    rd!(BitCodecBE, true, u64, 5, 51);
    rd!(BitCodecBE, true, u64, 5, 52);
    rd!(BitCodecBE, true, u64, 5, 53);
    rd!(BitCodecBE, true, u64, 5, 54);
    rd!(BitCodecBE, true, u64, 5, 55);
    rd!(BitCodecBE, true, u64, 5, 56);
    rd!(BitCodecBE, true, u64, 5, 57);
    rd!(BitCodecBE, true, u64, 5, 58);
    rd!(BitCodecBE, true, u64, 5, 59);
    rd!(BitCodecBE, true, u64, 5, 60);
    rd!(BitCodecBE, true, u64, 5, 61);
    rd!(BitCodecBE, true, u64, 5, 62);
    rd!(BitCodecBE, true, u64, 5, 63);
    rd!(BitCodecBE, true, u64, 5, 64);
}
#[kani::proof]
fn wr_be_5_0() {
    wr!(BitCodecBE, true, u8, 5, 1);
    wr!(BitCodecBE, true, u8, 5, 2);
    wr!(BitCodecBE, true, u8, 5, 3);
    wr!(BitCodecBE, true, u8, 5, 4);
    wr!(BitCodecBE, true, u8, 5, 5);
    wr!(BitCodecBE, true, u8, 5, 6);
    wr!(BitCodecBE, true, u8, 5, 7);
    wr!(BitCodecBE, true, u8, 5, 8);
    wr!(BitCodecBE, true, u16, 5, 9);
    wr!(BitCodecBE, true, u16, 5, 10);
    wr!(BitCodecBE, true, u16, 5, 11);
    wr!(BitCodecBE, true, u16, 5, 12);
    wr!(BitCodecBE, true, u16, 5, 13);
    wr!(BitCodecBE, true, u16, 5, 14);
    wr!(BitCodecBE, true, u16, 5, 15);
    wr!(BitCodecBE, true, u16, 5, 16);
    wr!(BitCodecBE, true, u32, 5, 17);
    wr!(BitCodecBE, true, u32, 5, 18);
    wr!(BitCodecBE, true, u32, 5, 19);
    wr!(BitCodecBE, true, u32, 5, 20);
    wr!(BitCodecBE, true, u32, 5, 21);
    wr!(BitCodecBE, true, u32, 5, 22);
    wr!(BitCodecBE, true, u32, 5, 23);
    wr!(BitCodecBE, true, u32, 5, 24);
    wr!(BitCodecBE, true, u32, 5, 25);
    wr!(BitCodecBE, true, u32, 5, 26);
    wr!(BitCodecBE, true, u32, 5, 27);
    wr!(BitCodecBE, true, u32, 5, 28);
    wr!(BitCodecBE, true, u32, 5, 29);
    wr!(BitCodecBE, true, u32, 5, 30);
    wr!(BitCodecBE, true, u32, 5, 31);
    wr!(BitCodecBE, true, u32, 5, 32);
}
#[kani::proof]
fn wr_be_5_1() {
    wr!(BitCodecBE, true, u64, 5, 33);
    wr!(BitCodecBE, true, u64, 5, 34);
    wr!(BitCodecBE, true, u64, 5, 35);
    wr!(BitCodecBE, true, u64, 5, 36);
    wr!(BitCodecBE, true, u64, 5, 37);
    wr!(BitCodecBE, true, u64, 5, 38);
    wr!(BitCodecBE, true, u64, 5, 39);
    wr!(BitCodecBE, true, u64, 5, 40);
    wr!(BitCodecBE, true, u64, 5, 41);
    wr!(BitCodecBE, true, u64, 5, 42);
    wr!(BitCodecBE, true, u64, 5, 43);
    wr!(BitCodecBE, true, u64, 5, 44);
    wr!(BitCodecBE, true, u64, 5, 45);
    wr!(BitCodecBE, true, u64, 5, 46);
    wr!(BitCodecBE, true, u64, 5, 47);
    wr!(BitCodecBE, true, u64, 5, 48);
    wr!(BitCodecBE, true, u64, 5, 49);
    wr!(BitCodecBE, true, u64, 5, 50);
    wr!(BitCodecBE, true, u64, 5, 51);
    wr!(BitCodecBE, true, u64, 5, 52);
    wr!(BitCodecBE, true, u64, 5, 53);
    wr!(BitCodecBE, true, u64, 5, 54);
    wr!(BitCodecBE, true, u64, 5, 55);
    wr!(BitCodecBE, true, u64, 5, 56);
    wr!(BitCodecBE, true, u64, 5, 57);
    wr!(BitCodecBE, true, u64, 5, 58);
    wr!(BitCodecBE, true, u64, 5, 59);
    wr!(BitCodecBE, true, u64, 5, 60);
    wr!(BitCodecBE, true, u64, 5, 61);
    wr!(BitCodecBE, true, u64, 5, 62);
    wr!(BitCodecBE, true, u64, 5, 63);
    wr!(BitCodecBE, true, u64, 5, 64);
}
#[kani::proof]
fn rd_be_6_0() {
    rd!(BitCodecBE, true, u8, 6, 1);
    rd!(BitCodecBE, true, u8, 6, 2);
    rd!(BitCodecBE, true, u8, 6, 3);
    rd!(BitCodecBE, true, u8, 6, 4);
    rd!(BitCodecBE, true, u8, 6, 5);
    rd!(BitCodecBE, true, u8, 6, 6);
    rd!(BitCodecBE, true, u8, 6, 7);
    rd!(BitCodecBE, true, u8, 6, 8);
    rd!(BitCodecBE, true, u16, 6, 9);
    rd!(BitCodecBE, true, u16, 6, 10);
    rd!(BitCodecBE, true, u16, 6, 11);
    rd!(BitCodecBE, true, u16, 6, 12);
    rd!(BitCodecBE, true, u16, 6, 13);
    rd!(BitCodecBE, true, u16, 6, 14);
    rd!(BitCodecBE, true, u16, 6, 15);
    rd!(BitCodecBE, true, u16, 6, 16);
    rd!(BitCodecBE, true, u32, 6, 17);
    rd!(BitCodecBE, true, u32, 6, 18);
    rd!(BitCodecBE, true, u32, 6, 19);
    rd!(BitCodecBE, true, u32, 6, 20);
    rd!(BitCodecBE, true, u32, 6, 21);
    rd!(BitCodecBE, true, u32, 6, 22);
    rd!(BitCodecBE, true, u32, 6, 23);
    rd!(BitCodecBE, true, u32, 6, 24);
    rd!(BitCodecBE, true, u32, 6, 25);
    rd!(BitCodecBE, true, u32, 6, 26);
    rd!(BitCodecBE, true, u32, 6, 27);
    rd!(BitCodecBE, true, u32, 6, 28);
    rd!(BitCodecBE, true, u32, 6, 29);
    rd!(BitCodecBE, true, u32, 6, 30);
    rd!(BitCodecBE, true, u32, 6, 31);
    rd!(BitCodecBE, true, u32, 6, 32);
}
#[kani::proof]
fn rd_be_6_1() {
    rd!(BitCodecBE, true, u64, 6, 33);
    rd!(BitCodecBE, true, u64, 6, 34);
    rd!(BitCodecBE, true, u64, 6, 35);
    rd!(BitCodecBE, true, u64, 6, 36);
    rd!(BitCodecBE, true, u64, 6, 37);
    rd!(BitCodecBE, true, u64, 6, 38);
    rd!(BitCodecBE, true, u64, 6, 39);
    rd!(BitCodecBE, true, u64, 6, 40);
    rd!(BitCodecBE, true, u64, 6, 41);
    rd!(BitCodecBE, true, u64, 6, 42);
    rd!(BitCodecBE, true, u64, 6, 43);
    rd!(BitCodecBE, true, u64, 6, 44);
    rd!(BitCodecBE, true, u64, 6, 45);
    rd!(BitCodecBE, true, u64, 6, 46);
    rd!(BitCodecBE, true, u64, 6, 47);
    rd!(BitCodecBE, true, u64, 6, 48);
    rd!(BitCodecBE, true, u64, 6, 49);
    rd!(BitCodecBE, true, u64, 6, 50);
    rd!(BitCodecBE, true, u64, 6, 51);
    rd!(BitCodecBE, true, u64, 6, 52);
    rd!(BitCodecBE, true, u64, 6, 53);
    rd!(BitCodecBE, true, u64, 6, 54);
    rd!(BitCodecBE, true, u64, 6, 55);
    rd!(BitCodecBE, true, u64, 6, 56);
    rd!(BitCodecBE, true, u64, 6, 57);
    rd!(BitCodecBE, true, u64, 6, 58);
    rd!(BitCodecBE, true, u64, 6, 59);
    rd!(BitCodecBE, true, u64, 6, 60);
    rd!(BitCodecBE, true, u64, 6, 61);
    rd!(BitCodecBE, true, u64, 6, 62);
    rd!(BitCodecBE, true, u64, 6, 63);
    rd!(BitCodecBE, true, u64, 6, 64);
}
#[kani::proof]
fn wr_be_6_0() {
    wr!(BitCodecBE, true, u8, 6, 1);
    wr!(BitCodecBE, true, u8, 6, 2);
    wr!(BitCodecBE, true, u8, 6, 3);
    wr!(BitCodecBE, true, u8, 6, 4);
    wr!(BitCodecBE, true, u8, 6, 5);
    wr!(BitCodecBE, true, u8, 6, 6);
    wr!(BitCodecBE, true, u8, 6, 7);
    wr!(BitCodecBE, true, u8, 6, 8);
    wr!(BitCodecBE, true, u16, 6, 9);
    wr!(BitCodecBE, true, u16, 6, 10);
    wr!(BitCodecBE, true, u16, 6, 11);
    wr!(BitCodecBE, true, u16, 6, 12);
    wr!(BitCodecBE, true, u16, 6, 13);
    wr!(BitCodecBE, true, u16, 6, 14);
    wr!(BitCodecBE, true, u16, 6, 15);
    wr!(BitCodecBE, true, u16, 6, 16);
    wr!(BitCodecBE, true, u32, 6, 17);
    wr!(BitCodecBE, true, u32, 6, 18);
    wr!(BitCodecBE, true, u32, 6, 19);
    wr!(BitCodecBE, true, u32, 6, 20);
    wr!(BitCodecBE, true, u32, 6, 21);
    wr!(BitCodecBE, true, u32, 6, 22);
    wr!(BitCodecBE, true, u32, 6, 23);
    wr!(BitCodecBE, true, u32, 6, 24);
    wr!(BitCodecBE, true, u32, 6, 25);
    wr!(BitCodecBE, true, u32, 6, 26);
    wr!(BitCodecBE, true, u32, 6, 27);
    wr!(BitCodecBE, true, u32, 6, 28);
    wr!(BitCodecBE, true, u32, 6, 29);
    wr!(BitCodecBE, true, u32, 6, 30);
    wr!(BitCodecBE, true, u32, 6, 31);
    wr!(BitCodecBE, true, u32, 6, 32);
}
#[kani::proof]
fn wr_be_6_1() {
    wr!(BitCodecBE, true, u64, 6, 33);
    wr!(BitCodecBE, true, u64, 6, 34);
    wr!(BitCodecBE, true, u64, 6, 35);
    wr!(BitCodecBE, true, u64, 6, 36);
    wr!(BitCodecBE, true, u64, 6, 37);
    wr!(BitCodecBE, true, u64, 6, 38);
    wr!(BitCodecBE, true, u64, 6, 39);
    wr!(BitCodecBE, true, u64, 6, 40);
    wr!(BitCodecBE, true, u64, 6, 41);
    wr!(BitCodecBE, true, u64, 6, 42);
    wr!(BitCodecBE, true, u64, 6, 43);
    wr!(BitCodecBE, true, u64, 6, 44);
    wr!(BitCodecBE, true, u64, 6, 45);
    wr!(BitCodecBE, true, u64, 6, 46);
    wr!(BitCodecBE, true, u64, 6, 47);
    wr!(BitCodecBE, true, u64, 6, 48);
    wr!(BitCodecBE, true, u64, 6, 49);
    wr!(BitCodecBE, true, u64, 6, 50);
    wr!(BitCodecBE, true, u64, 6, 51);
    wr!(BitCodecBE, true, u64, 6, 52);
    wr!(BitCodecBE, true, u64, 6, 53);
    wr!(BitCodecBE, true, u64, 6, 54);
    wr!(BitCodecBE, true, u64, 6, 55);
    wr!(BitCodecBE, true, u64, 6, 56);
    wr!(BitCodecBE, true, u64, 6, 57);
    wr!(BitCodecBE, true, u64, 6, 58);
    wr!(BitCodecBE, true, u64, 6, 59);
    wr!(BitCodecBE, true, u64, 6, 60);
    wr!(BitCodecBE, true, u64, 6, 61);
    wr!(BitCodecBE, true, u64, 6, 62);
    wr!(BitCodecBE, true, u64, 6, 63);
    wr!(BitCodecBE, true, u64, 6, 64);
}
#[kani::proof]
fn rd_be_7_0() {
    rd!(BitCodecBE, true, u8, 7, 1);
    rd!(BitCodecBE, true, u8, 7, 2);
    rd!(BitCodecBE, true, u8, 7, 3);
    rd!(BitCodecBE, true, u8, 7, 4);
    rd!(BitCodecBE, true, u8, 7, 5);
    rd!(BitCodecBE, true, u8, 7, 6);
    rd!(BitCodecBE, true, u8, 7, 7);
    rd!(BitCodecBE, true, u8, 7, 8);
    rd!(BitCodecBE, true, u16, 7, 9);
    rd!(BitCodecBE, true, u16, 7, 10);
    rd!(BitCodecBE, true, u16, 7, 11);
    rd!(BitCodecBE, true, u16, 7, 12);
    rd!(BitCodecBE, true, u16, 7, 13);
    rd!(BitCodecBE, true, u16, 7, 14);
    rd!(BitCodecBE, true, u16, 7, 15);
    rd!(BitCodecBE, true, u16, 7, 16);
    rd!(BitCodecBE, true, u32, 7, 17);
    rd!(BitCodecBE, true, u32, 7, 18);
    rd!(BitCodecBE, true, u32, 7, 19);
    rd!(BitCodecBE, true, u32, 7, 20);
    rd!(BitCodecBE, true, u32, 7, 21);
    rd!(BitCodecBE, true, u32, 7, 22);
    rd!(BitCodecBE, true, u32, 7, 23);
    rd!(BitCodecBE, true, u32, 7, 24);
    rd!(BitCodecBE, true, u32, 7, 25);
    rd!(BitCodecBE, true, u32, 7, 26);
    rd!(BitCodecBE, true, u32, 7, 27);
    rd!(BitCodecBE, true, u32, 7, 28);
    rd!(BitCodecBE, true, u32, 7, 29);
    rd!(BitCodecBE, true, u32, 7, 30);
    rd!(BitCodecBE, true, u32, 7, 31);
    rd!(BitCodecBE, true, u32, 7, 32);
}
#[kani::proof]
fn rd_be_7_1() {
    rd!(BitCodecBE, true, u64, 7, 33);
    rd!(BitCodecBE, true, u64, 7, 34);
    rd!(BitCodecBE, true, u64, 7, 35);
    rd!(BitCodecBE, true, u64, 7, 36);
    rd!(BitCodecBE, true, u64, 7, 37);
    rd!(BitCodecBE, true, u64, 7, 38);
    rd!(BitCodecBE, true, u64, 7, 39);
    rd!(BitCodecBE, true, u64, 7, 40);
    rd!(BitCodecBE, true, u64, 7, 41);
    rd!(BitCodecBE, true, u64, 7, 42);
    rd!(BitCodecBE, true, u64, 7, 43);
    rd!(BitCodecBE, true, u64, 7, 44);
    rd!(BitCodecBE, true, u64, 7, 45);
    rd!(BitCodecBE, true, u64, 7, 46);
    rd!(BitCodecBE, true, u64, 7, 47);
    rd!(BitCodecBE, true, u64, 7, 48);
    rd!(BitCodecBE, true, u64, 7, 49);
    rd!(BitCodecBE, true, u64, 7, 50);
    rd!(BitCodecBE, true, u64, 7, 51);
    rd!(BitCodecBE, true, u64, 7, 52);
    rd!(BitCodecBE, true, u64, 7, 53);
    rd!(BitCodecBE, true, u64, 7, 54);
    rd!(BitCodecBE, true, u64, 7, 55);
    rd!(BitCodecBE, true, u64, 7, 56);
    rd!(BitCodecBE, true, u64, 7, 57);
    rd!(BitCodecBE, true, u64, 7, 58);
    rd!(BitCodecBE, true, u64, 7, 59);
    rd!(BitCodecBE, true, u64, 7, 60);
    rd!(BitCodecBE, true, u64, 7, 61);
    rd!(BitCodecBE, true, u64, 7, 62);
    rd!(BitCodecBE, true, u64, 7, 63);
    rd!(BitCodecBE, true, u64, 7, 64);
}
#[kani::proof]
fn wr_be_7_0() {
    wr!(BitCodecBE, true, u8, 7, 1);
    wr!(BitCodecBE, true, u8, 7, 2);
    wr!(BitCodecBE, true, u8, 7, 3);
    wr!(BitCodecBE, true, u8, 7, 4);
    wr!(BitCodecBE, true, u8, 7, 5);
    wr!(BitCodecBE, true, u8, 7, 6);
    wr!(BitCodecBE, true, u8, 7, 7);
    wr!(BitCodecBE, true, u8, 7, 8);
    wr!(BitCodecBE, true, u16, 7, 9);
    wr!(BitCodecBE, true, u16, 7, 10);
    wr!(BitCodecBE, true, u16, 7, 11);
    wr!(BitCodecBE, true, u16, 7, 12);
    wr!(BitCodecBE, true, u16, 7, 13);
    wr!(BitCodecBE, true, u16, 7, 14);
    wr!(BitCodecBE, true, u16, 7, 15);
    wr!(BitCodecBE, true, u16, 7, 16);
    wr!(BitCodecBE, true, u32, 7, 17);
    wr!(BitCodecBE, true, u32, 7, 18);
    wr!(BitCodecBE, true, u32, 7, 19);
    wr!(BitCodecBE, true, u32, 7, 20);
    wr!(BitCodecBE, true, u32, 7, 21);
    wr!(BitCodecBE, true, u32, 7, 22);
    wr!(BitCodecBE, true, u32, 7, 23);
    wr!(BitCodecBE, true, u32, 7, 24);
    wr!(BitCodecBE, true, u32, 7, 25);
    wr!(BitCodecBE, true, u32, 7, 26);
    wr!(BitCodecBE, true, u32, 7, 27);
    wr!(BitCodecBE, true, u32, 7, 28);
    wr!(BitCodecBE, true, u32, 7, 29);
    wr!(BitCodecBE, true, u32, 7, 30);
    wr!(BitCodecBE, true, u32, 7, 31);
    wr!(BitCodecBE, true, u32, 7, 32);
}
#[kani::proof]
fn wr_be_7_1() {
    wr!(BitCodecBE, true, u64, 7, 33);
    wr!(BitCodecBE, true, u64, 7, 34);
    wr!(BitCodecBE, true, u64, 7, 35);
    wr!(BitCodecBE, true, u64, 7, 36);
    wr!(BitCodecBE, true, u64, 7, 37);
    wr!(BitCodecBE, true, u64, 7, 38);
    wr!(BitCodecBE, true, u64, 7, 39);
    wr!(BitCodecBE, true, u64, 7, 40);
    wr!(BitCodecBE, true, u64, 7, 41);
    wr!(BitCodecBE, true, u64, 7, 42);
    wr!(BitCodecBE, true, u64, 7, 43);
    wr!(BitCodecBE, true, u64, 7, 44);
    wr!(BitCodecBE, true, u64, 7, 45);
    wr!(BitCodecBE, true, u64, 7, 46);
    wr!(BitCodecBE, true, u64, 7, 47);
    wr!(BitCodecBE, true, u64, 7, 48);
    wr!(BitCodecBE, true, u64, 7, 49);
    wr!(BitCodecBE, true, u64, 7, 50);
    wr!(BitCodecBE, true, u64, 7, 51);
    wr!(BitCodecBE, true, u64, 7, 52);
    wr!(BitCodecBE, true, u64, 7, 53);
    wr!(BitCodecBE, true, u64, 7, 54);
    wr!(BitCodecBE, true, u64, 7, 55);
    wr!(BitCodecBE, true, u64, 7, 56);
    wr!(BitCodecBE, true, u64, 7, 57);
    wr!(BitCodecBE, true, u64, 7, 58);
    wr!(BitCodecBE, true, u64, 7, 59);
    wr!(BitCodecBE, true, u64, 7, 60);
    wr!(BitCodecBE, true, u64, 7, 61);
    wr!(BitCodecBE, true, u64, 7, 62);
    wr!(BitCodecBE, true, u64, 7, 63);
    wr!(BitCodecBE, true, u64, 7, 64);
}
