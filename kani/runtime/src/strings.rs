//! Contracts of strings. UTF-8 validation (std) is replaced by an oracle which records what it was
//! asked to validate: any content may be valid or invalid, contents have any length.
use crate::gen::*;
use crate::sink::*;
use bp3d_proto::message::{Error, FromSlice, WriteTo};
use bp3d_proto::message::util::*;

static mut VALID: bool = false;
static mut ASKED: (*const u8, usize, usize) = (std::ptr::null(), 0, 0);

#[cfg(feature = "small")]
use crate::gen::SMALL;
#[cfg(feature = "small")]
fn set_valid(s: &[u8]) { unsafe { VALID = utf8_ok::<SMALL>(s) } }
#[cfg(not(feature = "small"))]
fn set_valid(_: &[u8]) { unsafe { VALID = kani::any() } }

fn stub_utf8(v: &[u8]) -> Result<&str, std::str::Utf8Error> {
    unsafe {
        ASKED = (v.as_ptr(), v.len(), ASKED.2 + 1);
        if VALID { Ok(std::str::from_utf8_unchecked(v)) } else { Err(std::mem::zeroed()) }
    }
}

/// RFC 3629, table 3-7 of the Unicode standard, for at most N bytes.
pub fn utf8_ok<const N: usize>(s: &[u8]) -> bool {
    // number of continuation bytes still expected, and the range of the next one
    let (mut need, mut lo, mut hi) = (0u8, 0x80u8, 0xBFu8);
    let mut ok = true;
    let mut i = 0;
    while i < N {
        if i < s.len() {
            let b = s[i];
            if need > 0 {
                if b < lo || b > hi { ok = false; }
                need -= 1;
                lo = 0x80;
                hi = 0xBF;
            } else {
                match b {
                    0x00..=0x7F => (),
                    0xC2..=0xDF => need = 1,
                    0xE0 => { need = 2; lo = 0xA0; },
                    0xED => { need = 2; hi = 0x9F; },
                    0xE1..=0xEF => need = 2,
                    0xF0 => { need = 3; lo = 0x90; },
                    0xF4 => { need = 3; hi = 0x8F; },
                    0xF1..=0xF3 => need = 3,
                    _ => ok = false
                }
            }
        }
        i += 1;
    }
    ok && need == 0
}

macro_rules! varchar {
    ($name:ident, $V:ident, $be:literal, $t:ty, $l:literal) => {
        mod $name {
            use super::*;
            type S = VarcharString<$V<$t>>;

            #[kani::proof]
            #[kani::stub(std::str::from_utf8, super::stub_utf8)]
            fn decode() {
                let s = any_slice();
                let n = s.len();
                let len = crate::spec::num($be, s, $l);
                let fits = n >= $l && len <= (n - $l) as u64;
                set_valid(if fits { &s[$l..$l + len as usize] } else { s });
                let r = <S as FromSlice>::from_slice(s);
                kani::cover!(r.is_ok());
                kani::cover!(matches!(r, Err(Error::Truncated)));
                kani::cover!(matches!(r, Err(Error::InvalidUtf8)));
                match r {
                    Ok(m) => {
                        assert!(fits, "a truncated string is rejected");
                        assert!(unsafe { VALID }, "text which is not UTF-8 is rejected");
                        assert!(m.size() == $l + len as usize, "the size consumed is the prefix and the content");
                        let v = m.into_inner();
                        assert!(same(v.as_bytes(), &s[$l..$l + len as usize]), "the text is the content");
                    },
                    Err(Error::Truncated) => assert!(!fits, "a complete string is not truncated"),
                    Err(Error::InvalidUtf8) => assert!(fits && !unsafe { VALID }, "valid text is accepted"),
                    Err(_) => assert!(false, "no other error")
                }
            }

            #[kani::proof]
            fn encode() {
                let c = any_body();
                let text = unsafe { std::str::from_utf8_unchecked(c) };
                unsafe { BODY = (c.as_ptr(), c.len()) };
                let mut w = Rec::new();
                let budget: usize = kani::any();
                let faulty: bool = kani::any();
                if faulty { w.budget = budget; }
                let r = <S as WriteTo>::write_to(text, &mut w);
                let max = if $l == 8 { u64::MAX } else { (1u64 << (8 * ($l % 8))) - 1 };
                kani::cover!(r.is_ok() && c.len() > 0);
                kani::cover!(r.is_err());
                if c.len() as u64 > max {
                    assert!(matches!(r, Err(Error::LengthOverflow(v)) if v == c.len()), "a text too long for the prefix is rejected");
                    assert!(w.total == 0, "nothing is written");
                } else if w.failed || (faulty && budget < $l + c.len()) {
                    assert!(r.is_err(), "a failure of the writer is reported");
                } else {
                    assert!(r.is_ok(), "writing succeeds");
                    assert!(w.total == $l + c.len(), "prefix and content are written");
                    assert!(w.head_len == $l || c.len() == 0, "the prefix has its size");
                    let got = if $be { w.head_be($l) } else { w.head() };
                    assert!(got == c.len() as u64, "the prefix is the length in bytes");
                    assert!(c.len() == 0 || (w.bodies == 1 && w.body == c.as_ptr() && w.body_len == c.len()), "the content follows");
                }
                std::mem::forget(r);
            }
        }
    }
}

varchar!(u8_le, ValueLE, false, u8, 1);
varchar!(u8_be, ValueBE, true, u8, 1);
varchar!(u16_le, ValueLE, false, u16, 2);
varchar!(u16_be, ValueBE, true, u16, 2);
varchar!(u32_le, ValueLE, false, u32, 4);
varchar!(u32_be, ValueBE, true, u32, 4);
varchar!(u64_le, ValueLE, false, u64, 8);
varchar!(u64_be, ValueBE, true, u64, 8);

/// writing a NUL terminated string, content of any length
#[kani::proof]
fn nul_encode() {
    let c = any_body();
    let text = unsafe { std::str::from_utf8_unchecked(c) };
    unsafe { BODY = (c.as_ptr(), c.len()) };
    let mut w = Rec::new();
    let budget: usize = kani::any();
    let faulty: bool = kani::any();
    if faulty { w.budget = budget; }
    let r = <NullTerminatedString as WriteTo>::write_to(text, &mut w);
    kani::cover!(r.is_ok() && c.len() > 0);
    kani::cover!(r.is_err());
    if faulty && budget < c.len() + 1 {
        assert!(r.is_err(), "a failure of the writer is reported");
    } else {
        assert!(r.is_ok(), "writing succeeds");
        assert!(w.total == c.len() + 1, "the content and one byte are written");
        if c.len() > 0 {
            assert!(w.bodies == 1 && w.body == c.as_ptr() && w.body_len == c.len() && w.head_len == 0, "the content comes first");
            assert!(w.tail_len == 1 && w.tail[0] == 0, "followed by the terminator");
        } else {
            assert!(w.head[0] == 0 && w.tail[0] == 0, "the terminator");
        }
    }
    std::mem::forget(r);
}

macro_rules! nul_decode {
    ($name:ident, $n:literal, $unwind:literal) => {
        /// bounded: inputs of at most N bytes (the search for the terminator is a loop)
        #[kani::proof]
        #[kani::unwind($unwind)]
        #[kani::stub(std::str::from_utf8, stub_utf8)]
        fn $name() {
            let s = any_short::<$n>();
            let mut z = s.len();
            let mut i = $n;
            while i > 0 {
                i -= 1;
                if i < s.len() && s[i] == 0 { z = i; }
            }
            let fits = z < s.len();
            set_valid(&s[..z]);
            let r = <NullTerminatedString as FromSlice>::from_slice(s);
            kani::cover!(r.is_ok());
            kani::cover!(matches!(r, Err(Error::InvalidUtf8)));
            match r {
                Ok(m) => {
                    assert!(fits, "a string without terminator is rejected");
                    assert!(unsafe { VALID }, "text which is not UTF-8 is rejected");
                    assert!(m.size() == z + 1, "the size consumed is the content and the terminator");
                    let v = m.into_inner();
                    assert!(v.len() == z && (z == 0 || v.as_ptr() == s.as_ptr()), "the text ends at the first terminator");
                },
                Err(Error::Truncated) => assert!(!fits, "a terminated string is not truncated"),
                Err(Error::InvalidUtf8) => assert!(fits && !unsafe { VALID }, "valid text is accepted"),
                Err(_) => assert!(false, "no other error")
            }
        }
    }
}
nul_decode!(bounded_nul_decode, 8, 26);
nul_decode!(bounded_long_nul, 24, 26);

/// bounded, with the real validation of UTF-8: short texts with every possible content
macro_rules! real_text {
    ($name:ident, $n:literal, $m:literal, $u:literal, $slice:expr) => {
#[kani::proof]
#[kani::unwind($u)]
fn $name() {
    let s: &'static [u8] = $slice;
    let len = if s.len() > 0 { s[0] as usize } else { 0 };
    let fits = s.len() > 0 && len <= s.len() - 1;
    let valid = fits && utf8_ok::<$m>(&s[1..1 + len]);
    let r = <VarcharString<ValueLE<u8>> as FromSlice>::from_slice(s);
    kani::cover!(r.is_ok() && len == $m && s[1] > 0x80);
    kani::cover!(matches!(r, Err(Error::InvalidUtf8)));
    match r {
        Ok(m) => {
            assert!(fits, "a truncated string is rejected");
            assert!(valid, "text which is not UTF-8 is rejected");
            assert!(m.size() == 1 + len, "the size consumed is the prefix and the content");
            let v = m.into_inner();
            assert!(same(v.as_bytes(), &s[1..1 + len]), "the text is the content");
        },
        Err(Error::Truncated) => assert!(!fits, "a complete string is not truncated"),
        Err(Error::InvalidUtf8) => assert!(fits && !valid, "valid text is accepted"),
        Err(_) => assert!(false, "no other error")
    }
}
    }
}
real_text!(bounded_long_real_text, 6, 5, 8, any_short::<6>());
real_text!(bounded_real_tiny, 3, 2, 5, any_short::<3>());

/// bounded, with the real validation of UTF-8
#[kani::proof]
#[kani::unwind(8)]
fn bounded_real_nul() {
    let s = any_short::<6>();
    let mut z = s.len();
    let mut i = 6;
    while i > 0 {
        i -= 1;
        if i < s.len() && s[i] == 0 { z = i; }
    }
    let fits = z < s.len();
    let valid = fits && utf8_ok::<6>(&s[..z]);
    let r = <NullTerminatedString as FromSlice>::from_slice(s);
    kani::cover!(r.is_ok() && z == 5 && s[2] > 0x80);
    kani::cover!(matches!(r, Err(Error::InvalidUtf8)));
    match r {
        Ok(m) => {
            assert!(valid, "only terminated, valid text is accepted");
            assert!(m.size() == z + 1, "the size consumed is the content and the terminator");
            let v = m.into_inner();
            assert!(v.len() == z && (z == 0 || v.as_ptr() == s.as_ptr()), "the text ends at the first terminator");
        },
        Err(Error::Truncated) => assert!(!fits, "a terminated string is not truncated"),
        Err(Error::InvalidUtf8) => assert!(fits && !valid, "valid text is accepted"),
        Err(_) => assert!(false, "no other error")
    }
}
