//! Contracts of lists of items of variable size. The loops run over the count: these harnesses are
//! bounded (short inputs); the unbounded proof of the decoding loop is done with Verus.
use crate::gen::*;
use crate::sink::*;
use bp3d_proto::message::{Error, FromSlice, FromSliceWithOffsets, Message, WriteTo};
use bp3d_proto::message::util::*;

/// An item: a header byte telling how many bytes follow, 0xFF being invalid.
#[derive(Clone, Copy)]
pub struct It {
    pub at: *const u8,
    pub size: usize,
}

pub fn it_size(b: u8) -> usize { 1 + (b & 3) as usize }

impl<'a> FromSlice<'a> for It {
    type Output = It;
    fn from_slice(s: &'a [u8]) -> Result<Message<It>, Error> {
        if s.len() == 0 { return Err(Error::Truncated) }
        if s[0] == 0xFF { return Err(Error::InvalidUtf8) }
        let n = it_size(s[0]);
        if s.len() < n { return Err(Error::Truncated) }
        Ok(Message::new(n, It { at: s.as_ptr(), size: n }))
    }
}

impl<'a> FromSliceWithOffsets<'a> for It {
    type Offsets = usize;
    fn from_slice_with_offsets(s: &'a [u8]) -> Result<Message<(It, usize)>, Error> {
        It::from_slice(s).map(|m| { let n = m.size(); m.map(|v| (v, n)) })
    }
}

/// decodes `count` items, `None` if one is invalid or truncated
fn walk<const N: usize>(s: &[u8], from: usize, count: usize) -> Option<[usize; N]> {
    let mut ends = [from; N];
    let mut at = from;
    let mut i = 0;
    while i < N - 1 {
        if i < count {
            if at >= s.len() || s[at] == 0xFF { return None; }
            at += it_size(s[at]);
            if at > s.len() { return None; }
        }
        ends[i + 1] = at;
        i += 1;
    }
    Some(ends)
}

macro_rules! sized {
    ($name:ident, $N:literal, $K:literal, $u:literal) => {
        #[kani::proof]
        #[kani::unwind($u)]
        fn $name() {
            let s = any_short::<$N>();
            if s.len() > 0 { kani::assume(s[0] < $K); }
            let r = <List<&[u8], ValueLE<u8>, It> as FromSlice>::from_slice(s);
            kani::cover!(matches!(&r, Ok(m) if m.size() > 4));
            kani::cover!(matches!(&r, Err(Error::Truncated)));
            kani::cover!(matches!(&r, Err(Error::InvalidUtf8)));
            if s.len() == 0 {
                assert!(matches!(r, Err(Error::Truncated)), "a missing count is a truncation");
                return;
            }
            let count = s[0] as usize;
            match walk::<$K>(s, 1, count) {
                None => assert!(r.is_err(), "a list with an invalid or truncated item is rejected"),
                Some(ends) => {
                    assert!(r.is_ok(), "a complete list is accepted");
                    if let Ok(m) = r {
                        assert!(m.size() == ends[$K - 1], "the size consumed is the count and the items");
                        let l = m.into_inner();
                        assert!(l.len() == count, "the number of items is the count");
                        let mut it = l.iter();
                        let mut io = l.iter_offsets();
                        let mut i = 0;
                        while i < $K {
                            let (a, b) = (it.next(), io.next());
                            assert!(a.is_some() == (i < count) && b.is_some() == (i < count), "as many items as the count are yielded");
                            if let (Some(Ok(v)), Some(Ok((w, o)))) = (&a, &b) {
                                let n = ends[i + 1] - ends[i];
                                assert!(v.at == s[ends[i]..].as_ptr() && v.size == n, "the items are yielded in order");
                                assert!(w.at == v.at && w.size == n && *o == n, "iterating with offsets yields the same items");
                            } else {
                                assert!(a.is_none() && b.is_none(), "items checked while decoding are valid");
                            }
                            i += 1;
                        }
                    }
                }
            }
        }
    }
}

sized!(bounded_decode, 8, 4, 9);
sized!(bounded_long_decode, 12, 6, 13);

/// lists at the end of the input are only checked while iterating
#[kani::proof]
#[kani::unwind(9)]
fn bounded_unsized() {
    let s = any_short::<8>();
    kani::assume(s.len() > 0 && s[0] < 4);
    let count = s[0] as usize;
    let l = match <list::Unsized<ValueLE<u8>, It> as FromSlice>::from_slice(s) {
        Ok(m) => m.into_inner(),
        Err(_) => { assert!(false, "a list with a complete count is accepted"); return; }
    };
    let mut it = l.iter();
    let mut at = 1;
    let mut i = 0;
    let mut bad = false;
    while i < 4 {
        let v = it.next();
        if i >= count || bad {
            assert!(v.is_none(), "iteration ends after the last item or an invalid item");
        } else {
            bad = at >= s.len() || s[at] == 0xFF || at + it_size(s[at]) > s.len();
            match v {
                None => assert!(false, "as many items as the count are yielded"),
                Some(Err(_)) => assert!(bad, "valid items are yielded"),
                Some(Ok(v)) => {
                    assert!(!bad, "invalid items are reported");
                    assert!(v.at == s[at..].as_ptr(), "items are yielded in order");
                    at += v.size;
                }
            }
        }
        i += 1;
    }
    kani::cover!(bad);
    kani::cover!(count == 3 && !bad);
}

pub struct W(pub u8, pub [u8; 3]);
impl WriteTo for W {
    type Input = W;
    fn write_to<O: std::io::Write>(w: &W, mut out: O) -> Result<(), Error> {
        out.write_all(&[w.0])?;
        out.write_all(&w.1[..(w.0 & 3) as usize])?;
        Ok(())
    }
}

/// writing a list item by item then decoding it gives the items back, whatever follows
#[kani::proof]
#[kani::unwind(9)]
fn bounded_round_trip() {
    let items = [W(kani::any(), kani::any()), W(kani::any(), kani::any())];
    kani::assume(items[0].0 != 0xFF && items[1].0 != 0xFF);
    let k: usize = kani::any();
    kani::assume(k <= 2);
    let mut data = Out::<8>::new();
    let mut l = List::<&mut Out<8>, ValueBE<u16>, It>::new(&mut data);
    assert!(l.write_items(&items[..k]).is_ok());
    assert!(l.len() == k);
    drop(l);
    let n = data.n;
    let l = unsafe { List::<&[u8], ValueBE<u16>, It>::from_raw_parts(&data.b[..n], k) };
    let mut out = Out::<16>::new();
    assert!(<List<&[u8], ValueBE<u16>, It> as WriteTo>::write_to(&l, &mut out).is_ok());
    assert!(out.n == n + 2);
    let extra: usize = kani::any();
    kani::assume(extra <= 4);
    let r = <List<&[u8], ValueBE<u16>, It> as FromSlice>::from_slice(&out.b[..out.n + extra]);
    assert!(matches!(&r, Ok(m) if m.size() == n + 2), "a written list is decoded entirely, whatever follows");
    if let Ok(m) = r {
        let l = m.into_inner();
        assert!(l.len() == k);
        let mut i = 0;
        for v in l.iter() {
            match v {
                Ok(v) => {
                    let b = unsafe { std::slice::from_raw_parts(v.at, v.size) };
                    assert!(b[0] == items[i].0 && v.size == it_size(items[i].0));
                    assert!(b.len() < 2 || b[1] == items[i].1[0], "items are given back in order");
                },
                Err(_) => assert!(false)
            }
            i += 1;
        }
        assert!(i == k);
    }
}
