//! Contracts of optional fields, payloads, the step of list iterators and lists running to the end of
//! the input, for any decoder of the content which conforms to the contract of decoders.
use crate::gen::*;
use crate::sink::*;
use crate::spec::num;
use bp3d_proto::message::{Error, FromSlice, FromSliceWithOffsets, Message, WriteTo};
use bp3d_proto::message::util::*;

/// Any decoder: fails or consumes some part of its input. The outcome is chosen by the harness.
#[derive(Debug)]
pub struct Any(pub usize);
static mut OK: bool = false;
static mut SIZE: usize = 0;
static mut SEEN: (*const u8, usize, usize) = (std::ptr::null(), 0, 0);
static mut VALUE: usize = 0;

fn setup() {
    unsafe {
        OK = kani::any();
        SIZE = kani::any();
        VALUE = kani::any();
    }
}

fn step(slice: &[u8]) -> Result<Message<Any>, Error> {
    unsafe {
        SEEN = (slice.as_ptr(), slice.len(), SEEN.2 + 1);
        if OK && SIZE <= slice.len() { Ok(Message::new(SIZE, Any(VALUE))) } else { Err(Error::InvalidUnionDiscriminant(VALUE)) }
    }
}

impl<'a> FromSlice<'a> for Any {
    type Output = Any;
    fn from_slice(slice: &'a [u8]) -> Result<Message<Any>, Error> { step(slice) }
}

impl<'a> FromSliceWithOffsets<'a> for Any {
    type Offsets = usize;
    fn from_slice_with_offsets(slice: &'a [u8]) -> Result<Message<(Any, usize)>, Error> { step(slice).map(|m| m.map(|v| { let o = !v.0; (v, o) })) }
}

impl WriteTo for Any {
    type Input = Any;
    fn write_to<W: std::io::Write>(input: &Any, mut out: W) -> Result<(), Error> {
        unsafe {
            if !OK { return Err(Error::InvalidUnionDiscriminant(input.0)); }
            out.write_all(std::slice::from_raw_parts(BODY.0, BODY.1))?;
        }
        Ok(())
    }
}

/// what decoding the content found at `s[at..]` gives
fn conforms(s: &[u8], at: usize) -> bool {
    unsafe { OK && SIZE <= s.len() - at }
}

fn seen(s: &[u8], at: usize) -> bool {
    unsafe { SEEN.1 == s.len() - at && (SEEN.1 == 0 || SEEN.0 == s[at..].as_ptr()) }
}

#[kani::proof]
fn optional_decode() {
    setup();
    let s = any_slice();
    let r = <Optional<Any> as FromSlice>::from_slice(s);
    kani::cover!(matches!(&r, Ok(m) if m.size() > 1));
    kani::cover!(matches!(&r, Ok(m) if m.size() == 1));
    kani::cover!(r.is_err());
    if s.len() == 0 {
        assert!(matches!(r, Err(Error::Truncated)), "a missing presence byte is a truncation");
    } else if s[0] == 0 {
        assert!(matches!(&r, Ok(m) if m.size() == 1), "an absent value takes one byte");
        assert!(matches!(r.map(|m| m.into_inner()), Ok(None)), "a null presence byte is an absent value");
    } else if conforms(s, 1) {
        assert!(seen(s, 1), "the content is decoded after the presence byte");
        assert!(matches!(&r, Ok(m) if unsafe { m.size() == SIZE + 1 }), "a present value takes one byte more than its content");
        assert!(matches!(r.map(|m| m.into_inner()), Ok(Some(v)) if unsafe { v.0 == VALUE }), "the value is the content");
    } else {
        assert!(matches!(r, Err(Error::InvalidUnionDiscriminant(v)) if unsafe { v == VALUE }), "the error of the content is reported");
    }
}

#[kani::proof]
fn optional_offsets() {
    setup();
    let s = any_slice();
    let r = <Optional<Any> as FromSliceWithOffsets>::from_slice_with_offsets(s);
    kani::cover!(matches!(&r, Ok(m) if m.size() > 1));
    kani::cover!(matches!(&r, Ok(m) if m.size() == 1));
    kani::cover!(r.is_err());
    if s.len() == 0 {
        assert!(matches!(r, Err(Error::Truncated)), "a missing presence byte is a truncation");
    } else if s[0] == 0 {
        assert!(matches!(&r, Ok(m) if m.size() == 1), "an absent value takes one byte");
        assert!(matches!(r.map(|m| m.into_inner()), Ok((None, None))), "a null presence byte is an absent value");
    } else if conforms(s, 1) {
        assert!(seen(s, 1), "the content is decoded after the presence byte");
        assert!(matches!(&r, Ok(m) if unsafe { m.size() == SIZE + 1 }), "a present value takes one byte more than its content");
        assert!(matches!(r.map(|m| m.into_inner()), Ok((Some(v), Some(o))) if unsafe { v.0 == VALUE && o == !VALUE }), "the value and offsets are those of the content");
    } else {
        assert!(matches!(r, Err(Error::InvalidUnionDiscriminant(v)) if unsafe { v == VALUE }), "the error of the content is reported");
    }
}

#[kani::proof]
fn optional_encode() {
    setup();
    let c = any_body();
    unsafe { BODY = (c.as_ptr(), c.len()) };
    let some: bool = kani::any();
    let v = if some { Some(Any(0)) } else { None };
    let mut w = Rec::new();
    let faulty: bool = kani::any();
    let budget: usize = kani::any();
    if faulty { w.budget = budget; }
    let r = <Optional<Any> as WriteTo>::write_to(&v, &mut w);
    kani::cover!(r.is_ok() && some);
    kani::cover!(r.is_err());
    let need = if some { 1 + c.len() } else { 1 };
    if faulty && budget < need {
        assert!(r.is_err(), "a failure of the writer is reported");
    } else if some && !unsafe { OK } {
        assert!(r.is_err(), "a failure of the content is reported");
    } else {
        assert!(r.is_ok() && w.total == need, "presence byte and content are written");
        assert!(w.head[0] == some as u8, "the presence byte tells if there is a value");
        assert!(!some || c.len() == 0 || (w.bodies == 1 && w.body == c.as_ptr() && w.body_len == c.len() && w.head_len == 1), "the content follows");
    }
    std::mem::forget(r);
}

#[kani::proof]
fn buffer_decode() {
    let s = any_slice();
    match <Buffer as FromSlice>::from_slice(s) {
        Ok(m) => {
            assert!(m.size() == s.len() && same(m.into_inner(), s), "a payload is all the rest of the input");
        },
        Err(_) => assert!(false, "a payload is never rejected")
    }
}

#[kani::proof]
fn buffer_encode() {
    let c = any_body();
    unsafe { BODY = (c.as_ptr(), c.len()) };
    let mut w = Rec::new();
    let faulty: bool = kani::any();
    let budget: usize = kani::any();
    if faulty { w.budget = budget; }
    let r = <Buffer as WriteTo>::write_to(c, &mut w);
    assert!(r.is_ok() == !(faulty && budget < c.len()), "writing fails only with the writer");
    assert!(r.is_err() || (w.total == c.len() && w.head_len == 0), "the payload is written as is");
    assert!(r.is_err() || c.len() == 0 || (w.bodies == 1 && w.body == c.as_ptr() && w.body_len == c.len()), "the payload is written as is");
    std::mem::forget(r);
}

macro_rules! unsized_list {
    ($name:ident, $V:ident, $be:literal, $t:ty, $l:literal) => {
        mod $name {
            use super::*;
            /// lists at the end of an input: whatever the count, the items are all the rest
            #[kani::proof]
            fn decode() {
                setup();
                let s = any_slice();
                let r = <list::Unsized<$V<$t>, Any> as FromSlice>::from_slice(s);
                kani::cover!(r.is_ok());
                kani::cover!(r.is_err());
                if s.len() < $l {
                    assert!(matches!(r, Err(Error::Truncated)), "a truncated count is rejected");
                } else {
                    let count = num($be, s, $l) as usize;
                    match r {
                        Ok(m) => {
                            assert!(m.size() == s.len(), "the size consumed is the rest of the input");
                            let l = m.into_inner();
                            assert!(l.len() == count, "the number of items is the count");
                            step_is_next::<_, 1>(&l, &s[$l..]);
                        },
                        Err(_) => assert!(false, "a list with a complete count is accepted")
                    }
                }
            }

            #[kani::proof]
            fn encode() {
                let c = any_body();
                unsafe { BODY = (c.as_ptr(), c.len()) };
                let len: usize = kani::any();
                let l = unsafe { List::<&[u8], $V<$t>, Any>::from_raw_parts(c, len) };
                let a = unsafe { Array::<&[u8], $V<$t>, Any>::from_raw_parts(c, len) };
                let mut w = Rec::new();
                let faulty: bool = kani::any();
                let budget: usize = kani::any();
                if faulty { w.budget = budget; }
                let r = if kani::any() {
                    <List<&[u8], $V<$t>, Any> as WriteTo>::write_to(&l, &mut w)
                } else {
                    <Array<&[u8], $V<$t>, Any> as WriteTo>::write_to(&a, &mut w)
                };
                kani::cover!(r.is_ok() && c.len() > 0);
                kani::cover!(r.is_err());
                let max = if $l == 8 { u64::MAX } else { (1u64 << (8 * ($l % 8))) - 1 };
                if len as u64 > max {
                    assert!(matches!(r, Err(Error::LengthOverflow(v)) if v == len), "more items than the count can tell are rejected");
                    assert!(w.total == 0, "nothing is written");
                } else if faulty && budget < $l + c.len() {
                    assert!(r.is_err(), "a failure of the writer is reported");
                } else {
                    assert!(r.is_ok() && w.total == $l + c.len(), "count and items are written");
                    let got = if $be { w.head_be($l) } else { w.head() };
                    assert!(got == len as u64, "the count is the number of items");
                    assert!(c.len() == 0 || (w.bodies == 1 && w.body == c.as_ptr() && w.body_len == c.len() && w.head_len == $l), "the items follow");
                }
                std::mem::forget(r);
            }
        }
    }
}

/// One step of an iterator over the items of `s` from `at` when `left` items are left; `None` when
/// nothing more can be said (the iteration is over).
fn one(r: Option<Result<(Any, Option<usize>), Error>>, s: &[u8], at: usize, left: usize) -> Option<usize> {
    match r {
        None => {
            assert!(left == 0, "an item is yielded when some are left");
            None
        },
        Some(r) => {
            assert!(left != 0, "no item is yielded when none is left");
            assert!(seen(s, at), "the item is decoded at the position of the iterator");
            assert!(r.is_ok() == conforms(s, at), "the outcome is that of the item");
            match r {
                Ok((v, o)) => unsafe {
                    assert!(v.0 == VALUE, "the item is yielded");
                    assert!(o.is_none() || o == Some(!VALUE), "the offsets are those of the item");
                    Some(at + SIZE)
                },
                Err(e) => {
                    assert!(matches!(e, Error::InvalidUnionDiscriminant(v) if v == unsafe { VALUE }), "the error of the item is reported");
                    std::mem::forget(e);
                    None
                }
            }
        }
    }
}

fn reset() { unsafe { SEEN = (std::ptr::null(), 0, 0) } }

macro_rules! steps {
    ($k:expr, $it:expr, $l:expr, $s:expr, $map:expr) => {
        {
            let len = $l.len();
            let mut it = $it;
            reset();
            let mut at = Some(0);
            let mut k = 0;
            while k < $k {
                match at {
                    Some(p) => {
                        // the content of every item is chosen anew
                        setup();
                        at = one(it.next().map(|r| r.map($map)), $s, p, if len > k { len - k } else { 0 });
                    },
                    None => assert!(it.next().is_none(), "iteration ends after the last item or an invalid item")
                }
                k += 1;
            }
        }
    }
}

/// The first `K` steps of the iterators of a list over the items in `s`.
fn step_is_next<T, const K: usize>(l: &List<&[u8], T, Any>, s: &[u8]) {
    if kani::any() {
        steps!(K, l.iter(), l, s, |v| (v, None));
    } else {
        steps!(K, l.iter_offsets(), l, s, |(v, o)| (v, Some(o)));
    }
}

unsized_list!(u8_le, ValueLE, false, u8, 1);
unsized_list!(u8_be, ValueBE, true, u8, 1);
unsized_list!(u16_le, ValueLE, false, u16, 2);
unsized_list!(u16_be, ValueBE, true, u16, 2);
unsized_list!(u32_le, ValueLE, false, u32, 4);
unsized_list!(u32_be, ValueBE, true, u32, 4);
unsized_list!(u64_le, ValueLE, false, u64, 8);
unsized_list!(u64_be, ValueBE, true, u64, 8);

/// step of the iterators on any list
#[kani::proof]
fn list_step() {
    setup();
    let s = any_slice();
    let len: usize = kani::any();
    let l = unsafe { List::<&[u8], ValueLE<u8>, Any>::from_raw_parts(s, len) };
    assert!(l.len() == len);
    step_is_next::<_, 3>(&l, s);
}

/// appending an item to a list or array being written
#[kani::proof]
fn write_item() {
    setup();
    let c = any_body();
    unsafe { BODY = (c.as_ptr(), c.len()) };
    let faulty: bool = kani::any();
    let budget: usize = kani::any();
    let mut w = Rec::new();
    if faulty { w.budget = budget; }
    let ok = unsafe { OK } && !(faulty && budget < c.len());
    let len: usize = kani::any();
    kani::assume(len < usize::MAX);
    let array: bool = kani::any();
    if array {
        let mut a = unsafe { Array::<&mut Rec, ValueLE<u8>, Any>::from_raw_parts(&mut w, len) };
        let r = a.write_item(&Any(1));
        assert!(r.is_ok() == ok, "appending fails with the item or the writer");
        assert!(a.len() == if ok { len + 1 } else { len }, "the count is the number of appended items");
        std::mem::forget(r);
    } else {
        let mut a = unsafe { List::<&mut Rec, ValueLE<u8>, Any>::from_raw_parts(&mut w, len) };
        let r = a.write_item(&Any(1));
        assert!(r.is_ok() == ok, "appending fails with the item or the writer");
        assert!(a.len() == if ok { len + 1 } else { len }, "the count is the number of appended items");
        std::mem::forget(r);
    }
    kani::cover!(ok);
    kani::cover!(!ok);
    assert!(!ok || (w.total == c.len() && w.head_len == 0 && (c.len() == 0 || w.body == c.as_ptr())), "the item is appended to the data");
}

#[kani::proof]
fn fresh() {
    let mut w = Rec::new();
    let l = List::<&mut Rec, ValueLE<u8>, Any>::new(&mut w);
    assert!(l.len() == 0);
    drop(l);
    let a = Array::<&mut Rec, ValueLE<u8>, Any>::new(&mut w);
    assert!(a.len() == 0);
    assert!(w.total == 0, "a new list has no item");
}

/// `to_ref` keeps data and count
#[kani::proof]
fn to_ref() {
    setup();
    let s = any_slice();
    let len: usize = kani::any();
    let l = unsafe { List::<&[u8], ValueLE<u8>, Any>::from_raw_parts(s, len) };
    let r: List<&[u8], ValueLE<u8>, Any> = l.to_ref();
    assert!(r.len() == len);
    step_is_next::<_, 1>(&r, s);
}

/// the size announced for a message is the number of bytes it writes
#[kani::proof]
#[kani::unwind(3)]
fn size() {
    setup();
    let c = any_body();
    unsafe { BODY = (c.as_ptr(), c.len()) };
    let r = bp3d_proto::message::util::size_of(&Any(3));
    kani::cover!(r.is_ok());
    kani::cover!(r.is_err());
    match r {
        Ok(n) => assert!(unsafe { OK } && n == c.len(), "the size is the number of bytes written"),
        Err(e) => {
            assert!(!unsafe { OK }, "computing the size fails only if writing fails");
            std::mem::forget(e);
        }
    }
}

/// sizes of messages written in several pieces, any lengths
pub struct Pieces;
static mut PIECES: (usize, usize) = (0, 0);
impl WriteTo for Pieces {
    type Input = Pieces;
    fn write_to<W: std::io::Write>(_: &Pieces, mut out: W) -> Result<(), Error> {
        unsafe {
            let s = std::slice::from_raw_parts(BODY.0, BODY.1);
            out.write_all(&s[..PIECES.0])?;
            out.write_all(&s[..PIECES.1])?;
            let n = out.write(&s[..1])?;
            out.flush()?;
            if n != 1 { return Err(Error::Truncated); }
        }
        Ok(())
    }
}

#[kani::proof]
#[kani::unwind(4)]
fn size_pieces() {
    let c = any_body();
    kani::assume(c.len() > 0);
    unsafe { BODY = (c.as_ptr(), c.len()) };
    let (a, b) = (kani::any(), kani::any());
    kani::assume(a <= c.len() && b <= c.len());
    unsafe { PIECES = (a, b) };
    let r = bp3d_proto::message::util::size_of(&Pieces);
    assert!(matches!(r, Ok(n) if n == a + b + 1), "the size is the number of bytes written");
    std::mem::forget(r);
}
