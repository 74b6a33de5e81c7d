//! Contracts of the generated messages and unions (decoding, offsets, encoding, faults), against a
//! reference reader written from the description of the messages in `mk.py`.
//!
//! Inputs have any length (up to 2^40) unless the name of the harness starts with `bounded`. UTF-8
//! validation (std) is replaced by an oracle: every text is valid, except the ones starting at one
//! arbitrary address.
use crate::spec::{field, num};
use bp3d_proto::message::{Error, FieldOffset, FromSlice, FromSliceWithOffsets, Message, WriteTo};
use std::io::Write;

pub const MAX: usize = 1 << 40;
#[cfg(not(feature = "tiny"))]
pub const SMALL: usize = 26;
#[cfg(feature = "tiny")]
pub const SMALL: usize = 8;

#[cfg(not(feature = "small"))]
pub fn any_slice() -> &'static [u8] {
    let n: usize = kani::any();
    kani::assume(n <= MAX);
    let layout = std::alloc::Layout::from_size_align(n + 1, 1).unwrap();
    let p = unsafe { std::alloc::alloc(layout) };
    kani::assume(!p.is_null());
    unsafe { std::slice::from_raw_parts(p, n) }
}

#[cfg(feature = "small")]
pub fn any_slice() -> &'static [u8] {
    any_short::<SMALL>()
}

pub fn any_short<const N: usize>() -> &'static [u8] {
    let b: [u8; N] = kani::any();
    let n: usize = kani::any();
    kani::assume(n <= N);
    &Box::leak(Box::new(b))[..n]
}

static mut BAD: usize = 0;

/// in the small inputs a text is invalid exactly when it contains the byte 0xFF, and all its bytes
/// are otherwise ASCII: this is what the real validation would say as well.
#[cfg(feature = "tiny")]
fn is_bad(v: &[u8]) -> bool { !utf8_ok::<SMALL>(v) }
#[cfg(all(feature = "small", not(feature = "tiny")))]
fn is_bad(v: &[u8]) -> bool {
    let mut bad = false;
    let mut i = 0;
    while i < SMALL {
        if i < v.len() {
            if v[i] == 0xFF { bad = true } else { kani::assume(v[i] < 0x80) }
        }
        i += 1;
    }
    bad
}
#[cfg(not(feature = "small"))]
fn is_bad(v: &[u8]) -> bool { unsafe { v.as_ptr() as usize == BAD } }

fn stub_utf8(v: &[u8]) -> Result<&str, std::str::Utf8Error> {
    unsafe { if is_bad(v) { Err(std::mem::zeroed()) } else { Ok(std::str::from_utf8_unchecked(v)) } }
}

/// RFC 3629, table 3-7 of the Unicode standard, for at most N bytes.
pub fn utf8_ok<const N: usize>(s: &[u8]) -> bool {
    // number of continuation bytes still expected, and the range of the next one
    let (mut need, mut lo, mut hi) = (0u8, 0x80u8, 0xBFu8);
    let mut ok = true;
    let mut i = 0;
    while i < N {
        if i < s.len() {
            let b = s[i];
            if need > 0 {
                if b < lo || b > hi { ok = false; }
                need -= 1;
                lo = 0x80;
                hi = 0xBF;
            } else {
                match b {
                    0x00..=0x7F => (),
                    0xC2..=0xDF => need = 1,
                    0xE0 => { need = 2; lo = 0xA0; },
                    0xED => { need = 2; hi = 0x9F; },
                    0xE1..=0xEF => need = 2,
                    0xF0 => { need = 3; lo = 0x90; },
                    0xF4 => { need = 3; hi = 0x8F; },
                    0xF1..=0xF3 => need = 3,
                    _ => ok = false
                }
            }
        }
        i += 1;
    }
    ok && need == 0
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum E { Truncated, Utf8, Union(usize), Length(usize), Io }

fn kind(e: &Error) -> E {
    match e {
        Error::Truncated => E::Truncated,
        Error::InvalidUtf8 => E::Utf8,
        Error::InvalidUnionDiscriminant(v) => E::Union(*v),
        Error::LengthOverflow(v) => E::Length(*v),
        Error::Io(_) => E::Io
    }
}

/// The reference reader: consumes fields one after the other and stops at the first error.
pub struct Rd { pub be: bool, pub s: &'static [u8], pub p: usize, pub e: Option<E>, pub canonical: bool }

impl Rd {
    pub fn new(be: bool, s: &'static [u8]) -> Rd {
        Rd { be, s, p: 0, e: None, canonical: true }
    }
    pub fn take(&mut self, n: usize) -> usize {
        let at = self.p;
        if self.e.is_none() {
            if n > self.s.len() - at { self.e = Some(E::Truncated) } else { self.p += n }
        }
        at
    }
    pub fn fail(&mut self, e: E) { if self.e.is_none() { self.e = Some(e) } }
    pub fn num(&self, at: usize, l: usize) -> u64 { num(self.be, &self.s[at..], l) }
    /// a length prefix of `l` bytes followed by that many items of `item` bytes -> (start of content, count)
    pub fn counted(&mut self, l: usize, item: usize) -> (usize, usize) {
        let at = self.take(l);
        if self.e.is_some() { return (at, 0) }
        let n = self.num(at, l);
        if n > (self.s.len() as u64) || n as u128 * item as u128 > (self.s.len() - self.p) as u128 {
            self.e = Some(E::Truncated);
            return (at, 0)
        }
        let c = self.take(n as usize * item);
        (c, n as usize)
    }
    pub fn text(&mut self, l: usize) -> (usize, usize) {
        let (c, n) = self.counted(l, 1);
        if self.e.is_none() && is_bad(&self.s[c..c + n]) { self.e = Some(E::Utf8) }
        (c, n)
    }
    /// text up to the next NUL
    pub fn nul<const N: usize>(&mut self) -> (usize, usize) {
        let at = self.p;
        if self.e.is_some() { return (at, 0) }
        let mut z = N;
        let mut i = N;
        while i > 0 {
            i -= 1;
            if i >= at && i < self.s.len() && self.s[i] == 0 { z = i; }
        }
        if z == N { self.e = Some(E::Truncated); return (at, 0) }
        if is_bad(&self.s[at..z]) { self.e = Some(E::Utf8) } else { self.p = z + 1 }
        (at, z - at)
    }
    /// presence byte
    pub fn present(&mut self) -> bool {
        let at = self.take(1);
        if self.e.is_some() { return false }
        if self.s[at] > 1 { self.canonical = false; }
        self.s[at] != 0
    }
    pub fn is_text(&self, v: &str, t: (usize, usize)) -> bool {
        v.len() == t.1 && (t.1 == 0 || v.as_ptr() == self.s[t.0..].as_ptr())
    }
}

pub fn off(o: &FieldOffset, start: usize, end: usize) -> bool { o.start == start && o.end == end && o.size() == end - start }

/// A writer which compares what it is given with an expected output, and fails after `budget` bytes.
pub struct Cmp { pub want: &'static [u8], pub at: usize, pub budget: usize, pub same: bool, pub zero: bool }

impl Write for Cmp {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        if buf.len() == 0 || (self.zero && self.at == self.budget) { return Ok(0) }
        self.write_all(&buf[..1]).map(|_| 1)
    }
    fn write_all(&mut self, buf: &[u8]) -> std::io::Result<()> {
        let n = if buf.len() <= self.budget - self.at { buf.len() } else { self.budget - self.at };
        if n > self.want.len() - self.at {
            self.same = false;
        } else if n > 0 {
            let w = &self.want[self.at..];
            if buf.as_ptr() != w.as_ptr() {
                // not a copy of the expected memory: compared byte by byte, up to 8
                if n > 8 { self.same = false; }
                let eq = |i: usize| i >= n || buf[i] == w[i];
                if !(eq(0) && eq(1) && eq(2) && eq(3) && eq(4) && eq(5) && eq(6) && eq(7)) { self.same = false; }
            }
            self.at += n;
        }
        if n < buf.len() { Err(std::io::Error::from(std::io::ErrorKind::Other)) } else { Ok(()) }
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}

fn init() { unsafe { BAD = kani::any() } }

/// decode / offsets / encode harnesses of one message; `$check` reads the expected message and
/// compares it with the decoded value and the offsets
macro_rules! message {
    ($T:ident, $name:ident, $be:literal, $check:ident, $slice:expr $(, $unwind:literal)?) => {
        pub mod $name {
            use super::*;

            #[kani::proof]
            #[kani::stub(std::str::from_utf8, crate::messages::stub_utf8)]
            $(#[kani::unwind($unwind)])?
            fn decode() {
                init();
                let s = $slice;
                let mut r = Rd::new($be, s);
                let res = <$T as FromSlice>::from_slice(s);
                kani::cover!(res.is_ok());
                kani::cover!(res.is_err());
                match res {
                    Ok(m) => {
                        let size = m.size();
                        let v = m.into_inner();
                        $check(&mut r, Some(&v), None);
                        assert!(r.e.is_none(), "an invalid message is rejected");
                        assert!(size == r.p, "the size consumed is the size of the message");
                    },
                    Err(e) => {
                        $check(&mut r, None, None);
                        assert!(r.e == Some(kind(&e)), "only an invalid message is rejected, for the right reason");
                        std::mem::forget(e);
                    }
                }
            }

            #[kani::proof]
            #[kani::stub(std::str::from_utf8, crate::messages::stub_utf8)]
            $(#[kani::unwind($unwind)])?
            fn offsets() {
                init();
                let s = $slice;
                let mut r = Rd::new($be, s);
                let res = <$T as FromSliceWithOffsets>::from_slice_with_offsets(s);
                kani::cover!(res.is_ok());
                kani::cover!(res.is_err());
                match res {
                    Ok(m) => {
                        let size = m.size();
                        let (v, o) = m.into_inner();
                        $check(&mut r, Some(&v), Some(&o));
                        assert!(r.e.is_none(), "an invalid message is rejected");
                        assert!(size == r.p, "the size consumed is the size of the message");
                    },
                    Err(e) => {
                        $check(&mut r, None, None);
                        assert!(r.e == Some(kind(&e)), "only an invalid message is rejected, for the right reason");
                        std::mem::forget(e);
                    }
                }
            }

            /// a decoded message is written as it was; the writer may fail at any point
            #[kani::proof]
            #[kani::stub(std::str::from_utf8, crate::messages::stub_utf8)]
            $(#[kani::unwind($unwind)])?
            fn encode() {
                init();
                let s = $slice;
                let mut r = Rd::new($be, s);
                $check(&mut r, None, None);
                kani::assume(r.e.is_none() && r.canonical);
                match <$T as FromSlice>::from_slice(s) {
                    Ok(m) => {
                        let size = m.size();
                        let v = m.into_inner();
                        let faulty: bool = kani::any();
                        let mut w = Cmp { want: s, at: 0, budget: usize::MAX, same: true, zero: kani::any() };
                        if faulty { w.budget = kani::any(); }
                        let total = r.p;
                        let res = <$T as WriteTo>::write_to(&v, &mut w);
                        kani::cover!(res.is_ok());
                        kani::cover!(res.is_err());
                        assert!(w.same, "the bytes written are a prefix of the encoding");
                        if w.budget < total {
                            assert!(matches!(&res, Err(Error::Io(_))), "a failure of the writer is reported");
                            assert!(w.at == w.budget, "everything before the failure is written");
                        } else {
                            assert!(res.is_ok(), "a decoded message can be written");
                            assert!(w.at == total, "the whole message is written");
                            assert!(size == total, "the size decoded is the size written");
                        }
                        std::mem::forget(res);
                    },
                    Err(e) => { std::mem::forget(e); assert!(false, "a valid message is decoded") }
                }
            }
        }
    }
}

/// a struct item: only compared through its getters
macro_rules! suite {
    ($M:ident, $Sub:ident, $be:literal) => {
        pub mod $M {
            use super::*;
            use crate::$M::*;
            use crate::$Sub::{Sub, SubOffsets};

            fn pair(r: &Rd, at: usize, v: &Pair<&[u8]>) -> bool {
                v.get_a() as u64 == r.num(at, 2) && v.get_b() as u8 == r.s[at + 2]
            }

            fn plain(r: &mut Rd, v: Option<&Plain<'static>>, o: Option<&PlainOffsets>) {
                let (a, b, c, d, e, f) = (r.take(1), r.take(4), r.take(8), r.take(2), r.take(3), r.take(3));
                if r.e.is_some() { return }
                if let Some(v) = v {
                    assert!(v.a == r.s[a], "byte");
                    assert!(v.b as u32 as u64 == r.num(b, 4), "signed integer");
                    assert!(v.c.to_bits() == r.num(c, 8), "float");
                    assert!(v.d.get_v() as u64 == field::<$be>(&r.s[d..d + 2], 0, 12), "12 bits");
                    assert!(pair(r, e, &v.e), "structure");
                    assert!(v.f.get_v() == ((r.num(f, 3) << 40) as i64 >> 40) as i32, "24 bits signed");
                }
                if let Some(o) = o {
                    assert!(off(&o.a, 0, 1) && off(&o.b, 1, 5) && off(&o.c, 5, 13) && off(&o.d, 13, 15) && off(&o.e, 15, 18) && off(&o.f, 18, 21), "offsets");
                }
            }
            message!(Plain, plain_, $be, plain, any_slice());

            macro_rules! text {
                ($T:ident, $O:ident, $f:ident, $m:ident, $l:literal) => {
                    fn $f(r: &mut Rd, v: Option<&$T<'static>>, o: Option<&$O>) {
                        let start = r.p;
                        let t = r.text($l);
                        let z = r.take(1);
                        if r.e.is_some() { return }
                        if let Some(v) = v {
                            assert!(r.is_text(v.s, t), "the text");
                            assert!(v.z == r.s[z], "the field after the text");
                        }
                        if let Some(o) = o {
                            assert!(off(&o.s, start, z) && off(&o.z, z, z + 1), "offsets");
                        }
                    }
                    message!($T, $m, $be, $f, any_slice());
                }
            }
            text!(Text1, Text1Offsets, text1, text1_, 1);
            text!(Text2, Text2Offsets, text2, text2_, 2);
            text!(Text2b, Text2bOffsets, text2b, text2b_, 2);
            text!(Text4, Text4Offsets, text4, text4_, 4);

            fn nul(r: &mut Rd, v: Option<&Nul<'static>>, o: Option<&NulOffsets>) {
                let n = r.take(1);
                let t = r.nul::<8>();
                let z = r.take(1);
                if r.e.is_some() { return }
                if let Some(v) = v {
                    assert!(v.n == r.s[n] && v.z == r.s[z], "the fields around the text");
                    assert!(r.is_text(v.s, t), "the text");
                }
                if let Some(o) = o {
                    assert!(off(&o.n, 0, 1) && off(&o.s, 1, z) && off(&o.z, z, z + 1), "offsets");
                }
            }
            message!(Nul, bounded_nul, $be, nul, any_short::<8>(), 12);

            fn arr(r: &mut Rd, v: Option<&Arr<'static>>, o: Option<&ArrOffsets>) {
                let n = r.take(1);
                let t = r.counted(1, 3);
                let z = r.take(1);
                if r.e.is_some() { return }
                if let Some(v) = v {
                    assert!(v.n == r.s[n] && v.z == r.s[z], "the fields around the array");
                    assert!(v.items.len() == t.1, "the number of items");
                    let i: usize = kani::any();
                    if i < t.1 { assert!(pair(r, t.0 + i * 3, &v.items.get::<Pair<&[u8]>>(i)), "the items"); }
                }
                if let Some(o) = o {
                    assert!(off(&o.n, 0, 1) && off(&o.items, 1, z) && off(&o.z, z, z + 1), "offsets");
                }
            }
            message!(Arr, arr_, $be, arr, any_slice());

            fn arr2(r: &mut Rd, v: Option<&Arr2<'static>>, o: Option<&Arr2Offsets>) {
                let t = if r.present() { Some(r.counted(2, 3)) } else { None };
                let z = r.take(1);
                if r.e.is_some() { return }
                if let Some(v) = v {
                    assert!(v.z == r.s[z], "the field after the array");
                    assert!(v.items.is_some() == t.is_some(), "presence");
                    if let (Some(a), Some(t)) = (&v.items, t) {
                        assert!(a.len() == t.1, "the number of items");
                        let i: usize = kani::any();
                        if i < t.1 { assert!(pair(r, t.0 + i * 3, &a.get::<Pair<&[u8]>>(i)), "the items"); }
                    }
                }
                if let Some(o) = o {
                    assert!(off(&o.items, 0, z) && off(&o.z, z, z + 1), "offsets");
                }
            }
            message!(Arr2, arr2_, $be, arr2, any_slice());

            fn sub(r: &mut Rd, v: Option<&Sub<'_>>, o: Option<&SubOffsets>) {
                let start = r.p;
                let t = r.text(1);
                let n = r.take(1);
                if r.e.is_some() { return }
                if let Some(v) = v { assert!(r.is_text(v.s, t) && v.n == r.s[n], "nested message"); }
                if let Some(o) = o { assert!(off(&o.s, 0, n - start) && off(&o.n, n - start, n + 1 - start), "offsets of the nested message"); }
            }

            fn wrap(r: &mut Rd, v: Option<&Wrap<'static>>, o: Option<&WrapOffsets>) {
                let h = r.take(1);
                sub(r, v.map(|v| &v.sub), o.map(|o| &o.sub_offsets));
                let z = r.take(1);
                if r.e.is_some() { return }
                if let Some(v) = v { assert!(v.h == r.s[h] && v.z == r.s[z], "the fields around"); }
                if let Some(o) = o { assert!(off(&o.h, 0, 1) && off(&o.sub, 1, z) && off(&o.z, z, z + 1), "offsets"); }
            }
            message!(Wrap, wrap_, $be, wrap, any_slice());

            fn wrapopt(r: &mut Rd, v: Option<&WrapOpt<'static>>, o: Option<&WrapOptOffsets>) {
                let some = r.present();
                if r.e.is_some() { return }
                if let Some(v) = v { assert!(v.opt.is_some() == some, "presence"); }
                if let Some(o) = o { assert!(o.opt_offsets.is_some() == some, "presence"); }
                if some { sub(r, v.and_then(|v| v.opt.as_ref()), o.and_then(|o| o.opt_offsets.as_ref())); }
                let z = r.take(1);
                if r.e.is_some() { return }
                if let Some(v) = v { assert!(v.z == r.s[z], "the field after"); }
                if let Some(o) = o { assert!(off(&o.opt, 0, z) && off(&o.z, z, z + 1), "offsets"); }
            }
            message!(WrapOpt, wrapopt_, $be, wrapopt, any_slice());

            fn pay(r: &mut Rd, v: Option<&Pay<'static>>, o: Option<&PayOffsets>) {
                let n = r.take(1);
                if r.e.is_some() { return }
                let c = r.take(r.s.len() - 1);
                if let Some(v) = v {
                    assert!(v.n == r.s[n], "the field before the payload");
                    assert!(v.data.len() == r.s.len() - 1 && (v.data.len() == 0 || v.data.as_ptr() == r.s[1..].as_ptr()), "the payload is the rest of the input");
                }
                if let Some(o) = o { assert!(off(&o.n, 0, 1) && off(&o.data, 1, r.s.len()), "offsets"); }
            }
            message!(Pay, pay_, $be, pay, any_slice());

            fn u1(r: &mut Rd, v: Option<&U1<'static>>, o: Option<&U1Offsets>) {
                let h = r.take(1);
                let n = r.take(1);
                if r.e.is_some() { return }
                let d = field::<$be>(&r.s[h..h + 1], 0, 3) as usize;
                match d {
                    0 => { if let Some(v) = v { assert!(v.v.is_nothing() && !v.v.is_flag() && v.v.as_pair().is_none() && v.v.as_text().is_none(), "unit case") } },
                    1 => {
                        let p = r.take(3);
                        if r.e.is_none() { if let Some(v) = v { assert!(v.v.as_pair().is_some() && pair(r, p, v.v.as_pair().unwrap()), "structure case") } }
                    },
                    4 => {
                        if let Some(v) = v { assert!(v.v.as_text().is_some(), "message case") }
                        sub(r, v.and_then(|v| v.v.as_text()), None)
                    },
                    7 => { if let Some(v) = v { assert!(v.v.is_flag() && !v.v.is_nothing(), "unit case") } },
                    d => r.fail(E::Union(d))
                }
                if r.e.is_some() { return }
                if let Some(v) = v {
                    assert!(v.n == r.s[n], "the field before the union");
                    assert!(v.head.get_raw_kind() as usize == d && v.head.get_rest() as u64 == field::<$be>(&r.s[h..h + 1], 3, 5), "the structure of the discriminant");
                }
                if let Some(o) = o { assert!(off(&o.head, 0, 1) && off(&o.n, 1, 2) && off(&o.v, 2, r.p), "offsets"); }
            }
            message!(U1, u1_, $be, u1, any_slice());

            fn u2(r: &mut Rd, v: Option<&U2<'static>>, o: Option<&U2Offsets>) {
                let h = r.take(2);
                if r.e.is_some() { return }
                let d = field::<$be>(&r.s[h + 1..h + 2], 0, 3) as usize;
                match d {
                    0 => { if let Some(v) = v { assert!(v.v.is_n() && v.v.as_f().is_none(), "unit case") } },
                    7 => {
                        let p = r.take(3);
                        if r.e.is_none() { if let Some(v) = v { assert!(v.v.as_f().is_some() && pair(r, p, v.v.as_f().unwrap()), "structure case") } }
                    },
                    d => r.fail(E::Union(d))
                }
                let z = r.take(1);
                if r.e.is_some() { return }
                if let Some(v) = v { assert!(v.z == r.s[z], "the field after the union"); }
                if let Some(o) = o { assert!(off(&o.deep, 0, 2) && off(&o.v, 2, z) && off(&o.z, z, z + 1), "offsets"); }
            }
            message!(U2, u2_, $be, u2, any_slice());

            fn u3(r: &mut Rd, v: Option<&U3<'static>>, o: Option<&U3Offsets>) {
                let h = r.take(1);
                if r.e.is_some() { return }
                let raw = field::<$be>(&r.s[h..h + 1], 3, 5);
                match raw {
                    0x1F => {
                        let p = r.take(3);
                        if r.e.is_none() { if let Some(v) = v { assert!(v.v.as_minus().is_some() && pair(r, p, v.v.as_minus().unwrap()), "case -1") } }
                    },
                    0x10 => { if let Some(v) = v { assert!(v.v.is_min(), "case -16") } },
                    0x0F => {
                        let p = r.take(2);
                        if r.e.is_none() { if let Some(v) = v { assert!(v.v.as_max().is_some() && v.v.as_max().unwrap().get_v() as u64 == field::<$be>(&r.s[p..p + 2], 0, 12), "case 15") } }
                    },
                    0 => { if let Some(v) = v { assert!(v.v.is_zero(), "case 0") } },
                    d => r.fail(E::Union(d as usize))
                }
                if r.e.is_some() { return }
                if let Some(o) = o { assert!(off(&o.h, 0, 1) && off(&o.v, 1, r.p), "offsets"); }
            }
            message!(U3, u3_, $be, u3, any_slice());

            fn u4(r: &mut Rd, v: Option<&U4<'static>>, o: Option<&U4Offsets>) {
                let h = r.take(3);
                if r.e.is_some() { return }
                match r.num(h, 2) {
                    0xFFFE => {
                        let p = r.take(3);
                        if r.e.is_none() { if let Some(v) = v { assert!(v.v.as_minus().is_some() && pair(r, p, v.v.as_minus().unwrap()), "case -2") } }
                    },
                    0x7FFF => { if let Some(v) = v { assert!(v.v.is_max(), "case 32767") } },
                    d => r.fail(E::Union(d as usize))
                }
                if r.e.is_some() { return }
                if let Some(o) = o { assert!(off(&o.h, 0, 3) && off(&o.v, 3, r.p), "offsets"); }
            }
            message!(U4, u4_, $be, u4, any_slice());

            fn u5(r: &mut Rd, v: Option<&U5<'static>>, o: Option<&U5Offsets>) {
                let h = r.take(4);
                if r.e.is_some() { return }
                match r.num(h + 2, 2) {
                    0 => {
                        let p = r.take(3);
                        if r.e.is_none() { if let Some(v) = v { assert!(v.v.as_low().is_some() && pair(r, p, v.v.as_low().unwrap()), "case 0") } }
                    },
                    0xFFFF => {
                        let p = r.take(4);
                        if r.e.is_none() { if let Some(v) = v { assert!(v.v.as_top().is_some() && v.v.as_top().unwrap().get_v() as u32 as u64 == r.num(p, 4), "case 65535") } }
                    },
                    d => r.fail(E::Union(d as usize))
                }
                if r.e.is_some() { return }
                if let Some(o) = o { assert!(off(&o.h, 0, 4) && off(&o.v, 4, r.p), "offsets"); }
            }
            message!(U5, u5_, $be, u5, any_slice());

            fn lstmid(r: &mut Rd, v: Option<&LstMid<'_>>, o: Option<&LstMidOffsets>) {
                let c = r.take(2);
                if r.e.is_some() { return }
                let n = r.num(c, 2);
                let mut it = v.map(|v| v.items.iter());
                // an item takes at least 2 bytes
                let mut i = 0;
                while i < 3 {
                    if i < n && r.e.is_none() {
                        let x = match &mut it { Some(it) => { let x = it.next(); assert!(matches!(x, Some(Ok(_))), "the items can be decoded"); match x { Some(Ok(x)) => Some(x), _ => None } }, None => None };
                        sub(r, x.as_ref(), None);
                    }
                    i += 1;
                }
                if n > 3 { r.fail(E::Truncated) }
                let z = r.take(1);
                if r.e.is_some() { return }
                if let Some(v) = v {
                    assert!(v.items.len() as u64 == n && it.unwrap().next().is_none(), "the number of items");
                    assert!(v.z == r.s[z], "the field after the list");
                }
                if let Some(o) = o { assert!(off(&o.items, 0, z) && off(&o.z, z, z + 1), "offsets"); }
            }
            message!(LstMid, bounded_lstmid, $be, lstmid, any_short::<8>(), 5);

            fn in2(r: &mut Rd, v: Option<&In2<'_>>, o: Option<&In2Offsets>) {
                let c = r.take(1);
                if r.e.is_some() { return }
                let n = r.num(c, 1);
                let mut it = v.map(|v| v.subs.iter());
                let mut i = 0;
                while i < 3 {
                    if i < n && r.e.is_none() {
                        let x = match &mut it { Some(it) => { let x = it.next(); assert!(matches!(x, Some(Ok(_))), "the items can be decoded"); match x { Some(Ok(x)) => Some(x), _ => None } }, None => None };
                        sub(r, x.as_ref(), None);
                    }
                    i += 1;
                }
                if n > 3 { r.fail(E::Truncated) }
                if r.e.is_some() { return }
                if let Some(v) = v { assert!(v.subs.len() as u64 == n && it.unwrap().next().is_none(), "the number of items"); }
                if let Some(o) = o { assert!(off(&o.subs, 0, r.p), "offsets"); }
            }
            message!(In2, bounded_in2, $be, in2, any_short::<7>(), 5);

            fn lst(r: &mut Rd, v: Option<&Lst<'static>>, o: Option<&LstOffsets>) {
                let n = r.take(1);
                let c = r.take(1);
                if r.e.is_some() { return }
                let end = r.s.len();
                r.take(end - 2);
                if let Some(v) = v { assert!(v.n == r.s[n] && v.items.len() as u64 == r.num(c, 1), "the number of items"); }
                if let Some(o) = o { assert!(off(&o.n, 0, 1) && off(&o.items, 1, end), "offsets"); }
            }
            message!(Lst, lst_, $be, lst, any_slice());

            /// the items of a list at the end of a message, decoded while iterating
            #[kani::proof]
            #[kani::stub(std::str::from_utf8, crate::messages::stub_utf8)]
            #[kani::unwind(12)]
            fn bounded_lst_items() {
                init();
                let s = any_short::<8>();
                let res = Lst::from_slice(s);
                kani::assume(res.is_ok());
                match res {
                    Ok(m) => {
                        let v = m.into_inner();
                        let mut r = Rd::new($be, s);
                        r.take(2);
                        let n = r.num(1, 1);
                        let mut it = v.items.iter();
                        let mut i = 0;
                        while i < 4 {
                            if i < n && r.e.is_none() {
                                let x = it.next();
                                kani::cover!(matches!(x, Some(Ok(_))) && i == 2);
                                match &x {
                                    Some(Ok(x)) => sub(&mut r, Some(x), None),
                                    _ => sub(&mut r, None, None)
                                }
                                match (&x, r.e) {
                                    (Some(Ok(_)), None) => (),
                                    (Some(Err(e)), Some(w)) => assert!(kind(e) == w, "the error of the item"),
                                    _ => assert!(false, "one result per item")
                                }
                                std::mem::forget(x);
                            }
                            i += 1;
                        }
                        if r.e.is_some() || n < 4 { assert!(it.next().is_none(), "nothing after the last item or an error"); }
                    },
                    Err(e) => std::mem::forget(e)
                }
            }

            // texts longer than the prefix of their field
            macro_rules! too_long {
                ($T:ident, $h:ident, $max:expr) => {
                    #[kani::proof]
                    fn $h() {
                        let t = any_slice();
                        let v = $T { s: unsafe { std::str::from_utf8_unchecked(t) }, z: kani::any() };
                        let mut w = Count(0);
                        let res = $T::write_to(&v, &mut w);
                        if t.len() as u64 <= $max {
                            kani::cover!(t.len() as u64 == $max);
                            assert!(res.is_ok() && w.0 == t.len() as u64 + 1 + ($max as u64).count_ones() as u64 / 8, "a text which fits is written");
                        } else {
                            assert!(matches!(res, Err(Error::LengthOverflow(l)) if l == t.len()), "a text which does not fit is rejected");
                        }
                        std::mem::forget(res);
                    }
                }
            }
            too_long!(Text1, too_long_1, 0xFFu64);
            too_long!(Text2, too_long_2, 0xFFFFu64);
            too_long!(Text2b, too_long_2b, 0xFFFFu64);
            too_long!(Text4, too_long_4, 0xFFFF_FFFFu64);

            #[kani::proof]
            fn too_long_array() {
                let t = any_slice();
                let n: usize = kani::any();
                kani::assume(n <= 1 << 32);
                if let Some(items) = bp3d_proto::message::util::Array::from_parts(t, n) {
                    let v = Arr { n: kani::any(), items, z: kani::any() };
                    let mut w = Count(0);
                    let res = Arr::write_to(&v, &mut w);
                    kani::cover!(res.is_ok());
                    kani::cover!(res.is_err());
                    assert!(res.is_ok() == (n < 256), "an array which does not fit its prefix is rejected");
                    if n >= 256 { assert!(matches!(&res, Err(Error::LengthOverflow(l)) if *l == n), "with its length"); }
                    std::mem::forget(res);
                }
            }

            // union values written with the wrong discriminant, and the discriminant set from the value
            macro_rules! union {
                ($h:ident, $U:ident, $D:ident, $size:literal, $get:expr, $set:expr, $cases:expr) => {
                    pub mod $h {
                        use super::*;
                        #[kani::proof]
                        fn write() {
                            let b: &'static [u8; $size] = Box::leak(Box::new(kani::any()));
                            let p: &'static [u8; 4] = Box::leak(Box::new(kani::any()));
                            let d = $D::new(&b[..]);
                            let cases = ($cases)(p);
                            let mut i = 0;
                            while i < cases.len() {
                                let (v, raw, size) = cases[i];
                                let mut w = Cmp { want: &p[..], at: 0, budget: usize::MAX, same: true, zero: kani::any() };
                                let res = $U::write_to(&v, &d, &mut w);
                                let cur = ($get)(&b[..]);
                                if cur == raw {
                                    assert!(res.is_ok() && w.at == size && w.same, "the value is written after its discriminant");
                                } else {
                                    assert!(matches!(&res, Err(Error::InvalidUnionDiscriminant(x)) if *x as u64 == cur), "a value which is not the one of the discriminant is rejected");
                                    assert!(w.at == 0, "nothing is written");
                                }
                                kani::cover!(res.is_ok());
                                kani::cover!(res.is_err());
                                std::mem::forget(res);
                                i += 1;
                            }
                        }
                        #[kani::proof]
                        fn set_discriminant() {
                            let b0: [u8; $size] = kani::any();
                            let p: &'static [u8; 4] = Box::leak(Box::new(kani::any()));
                            let cases = ($cases)(p);
                            let mut i = 0;
                            while i < cases.len() {
                                let (v, raw, _) = cases[i];
                                let mut d = $D::new(b0);
                                v.set_discriminant(&mut d);
                                let b1: &'static [u8; $size] = Box::leak(Box::new([0; $size]));
                                let mut out = Cap::<$size>([0; $size], 0);
                                assert!($D::write_to(&d.to_ref(), &mut out).is_ok());
                                assert!(out.1 == $size && ($set)(&b0[..], &out.0[..], raw), "only the discriminant changes, to the one of the value");
                                i += 1;
                            }
                        }
                    }
                }
            }
            union!(value, Value, Head, 1, |b: &[u8]| field::<$be>(b, 0, 3), |a: &[u8], b: &[u8], v| crate::spec::updated::<$be>(a, b, 0, 3, v),
                |p: &'static [u8; 4]| [(Value::Nothing, 0u64, 0usize), (Value::Pair(Pair::new(&p[..])), 1, 3), (Value::Flag, 7, 0)]);
            union!(deep_value, DeepValue, Deep, 2, |b: &[u8]| field::<$be>(&b[1..], 0, 3), |a: &[u8], b: &[u8], v| a[0] == b[0] && crate::spec::updated::<$be>(&a[1..], &b[1..], 0, 3, v),
                |p: &'static [u8; 4]| [(DeepValue::N, 0u64, 0usize), (DeepValue::F(Pair::new(&p[..])), 7, 3)]);
            union!(signed_value, SValue, SHead, 1, |b: &[u8]| field::<$be>(b, 3, 5), |a: &[u8], b: &[u8], v| crate::spec::updated::<$be>(a, b, 3, 5, v),
                |p: &'static [u8; 4]| [(SValue::Minus(Pair::new(&p[..])), 0x1Fu64, 3usize), (SValue::Min, 0x10, 0), (SValue::Max(U12::new(&p[..])), 0xF, 2), (SValue::Zero, 0, 0)]);
            union!(native_value, NValue, NHead2, 3, |b: &[u8]| num($be, b, 2), |a: &[u8], b: &[u8], v| a[2] == b[2] && num($be, b, 2) == v,
                |p: &'static [u8; 4]| [(NValue::Minus(Pair::new(&p[..])), 0xFFFEu64, 3usize), (NValue::Max, 0x7FFF, 0)]);
            union!(wide_value, UValue, UHead, 4, |b: &[u8]| num($be, &b[2..], 2), |a: &[u8], b: &[u8], v| a[0] == b[0] && a[1] == b[1] && num($be, &b[2..], 2) == v,
                |p: &'static [u8; 4]| [(UValue::Low(Pair::new(&p[..])), 0u64, 3usize), (UValue::Top(Int::new(&p[..])), 0xFFFF, 4)]);
            union!(unit_value, UnitValue, Head, 1, |b: &[u8]| field::<$be>(b, 0, 3), |a: &[u8], b: &[u8], v| crate::spec::updated::<$be>(a, b, 0, 3, v),
                |p: &'static [u8; 4]| [(UnitValue::Nothing, 0u64, 0usize), (UnitValue::Flag, 7, 0)]);

            #[kani::proof]
            fn unit_decode() {
                let b: &'static [u8; 1] = Box::leak(Box::new(kani::any()));
                let s = any_slice();
                let d = Head::new(&b[..]);
                let res = UnitValue::from_slice(s, &d);
                let cur = field::<$be>(&b[..], 0, 3);
                match res {
                    Ok(m) => {
                        assert!(m.size() == 0, "a case without content takes no byte");
                        match m.into_inner() {
                            UnitValue::Nothing => assert!(cur == 0, "case 0"),
                            UnitValue::Flag => assert!(cur == 7, "case 7")
                        }
                    },
                    Err(e) => assert!(kind(&e) == E::Union(cur as usize) && cur != 0 && cur != 7, "only an unknown discriminant is rejected")
                }
            }
        }
    }
}

pub struct Count(pub u64);
impl Write for Count {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        let n = if buf.len() > 0 { 1 } else { 0 };
        self.0 += n as u64;
        Ok(n)
    }
    fn write_all(&mut self, buf: &[u8]) -> std::io::Result<()> { self.0 += buf.len() as u64; Ok(()) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}

pub struct Cap<const N: usize>(pub [u8; N], pub usize);
impl<const N: usize> Write for Cap<N> {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> { if buf.len() == 0 { return Ok(0) } self.write_all(&buf[..1]).map(|_| 1) }
    fn write_all(&mut self, buf: &[u8]) -> std::io::Result<()> {
        let mut i = 0;
        while i < N {
            if i < buf.len() && self.1 < N { self.0[self.1] = buf[i]; self.1 += 1; }
            i += 1;
        }
        Ok(())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}

suite!(msgle, suble, false);
suite!(msgbe, subbe, true);
