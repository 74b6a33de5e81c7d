//! Contracts of arrays of structures stored in messages: counts and contents of every length.
use crate::gen::*;
use crate::sink::*;
use crate::spec::num;
use bp3d_proto::message::{Error, FromSlice, Message, WriteTo};
use bp3d_proto::message::util::*;
use bp3d_proto::util::FixedSize;

/// A structure of `N` bytes.
pub struct S<B, const N: usize>(pub B);
impl<B, const N: usize> FixedSize for S<B, N> { const SIZE: usize = N; }
impl<'a, const N: usize> From<&'a [u8]> for S<&'a [u8], N> { fn from(b: &'a [u8]) -> Self { S(b) } }
impl<'a, const N: usize> From<&'a mut [u8]> for S<&'a mut [u8], N> { fn from(b: &'a mut [u8]) -> Self { S(b) } }
impl<'a, const N: usize> FromSlice<'a> for S<&'a [u8], N> {
    type Output = Self;
    fn from_slice(s: &'a [u8]) -> Result<Message<Self>, Error> {
        if s.len() < N { Err(Error::Truncated) } else { Ok(Message::new(N, S(&s[..N]))) }
    }
}

macro_rules! arr {
    ($name:ident, $V:ident, $be:literal, $t:ty, $l:literal, $n:literal) => {
        mod $name {
            use super::*;
            type A<B> = Array<B, $V<$t>, S<&'static [u8], $n>>;

            #[kani::proof]
            fn decode() {
                let s = any_slice();
                let count = num($be, s, $l);
                let r = <Array<&[u8], $V<$t>, S<&[u8], $n>> as FromSlice>::from_slice(s);
                kani::cover!(r.is_ok());
                kani::cover!(r.is_err());
                let fits = s.len() >= $l && count as u128 * $n <= (s.len() - $l) as u128;
                match r {
                    Ok(m) => {
                        assert!(fits, "an array with missing items is rejected");
                        let count = count as usize;
                        assert!(m.size() == $l + count * $n, "the size consumed is the count and the items");
                        let a = m.into_inner();
                        assert!(a.len() == count, "the number of items is the count");
                        let i: usize = kani::any();
                        if i < count {
                            let v: S<&[u8], $n> = a.get(i);
                            assert!(same(v.0, &s[$l + i * $n..$l + i * $n + $n]), "item i is at its place");
                        }
                        match a.iter::<S<&[u8], $n>>().next() {
                            None => assert!(count == 0, "items are yielded"),
                            Some(v) => assert!(count > 0 && same(v.0, &s[$l..$l + $n]), "the first item comes first")
                        }
                    },
                    Err(e) => {
                        assert!(!fits, "a complete array is accepted");
                        assert!(matches!(e, Error::Truncated), "missing items are a truncation");
                    }
                }
            }
        }
    }
}

arr!(u8_1, ValueLE, false, u8, 1, 1);
arr!(u8_3, ValueLE, false, u8, 1, 3);
arr!(u16_3, ValueBE, true, u16, 2, 3);
arr!(u32_8, ValueLE, false, u32, 4, 8);
arr!(u64_1, ValueLE, false, u64, 8, 1);
arr!(u64_3, ValueBE, true, u64, 8, 3);
arr!(u64_8, ValueLE, false, u64, 8, 8);

macro_rules! parts {
    ($name:ident, $n:literal) => {
        mod $name {
            use super::*;
            type A<B> = Array<B, ValueLE<u32>, S<&'static [u8], $n>>;

            #[kani::proof]
            fn from_parts() {
                let s = any_slice();
                let len: usize = kani::any();
                let r = A::from_parts(s, len);
                kani::cover!(r.is_some());
                kani::cover!(r.is_none());
                assert!(r.is_some() == (len as u128 * $n == s.len() as u128), "only whole numbers of items are accepted");
                if let Some(a) = r { assert!(a.len() == len); }
            }

            #[kani::proof]
            fn get_mut() {
                let s = any_slice_mut();
                let n = s.len();
                let p = s.as_ptr();
                let i: usize = kani::any();
                kani::assume(i <= MAX && i * $n + $n <= n);
                let mut a = unsafe { A::from_raw_parts(s, 0) };
                let v: S<&mut [u8], $n> = a.get_mut(i);
                assert!(v.0.len() == $n && v.0.as_ptr() as usize == p as usize + i * $n, "item i is at its place");
                match a.iter_mut::<S<&mut [u8], $n>>().next() {
                    None => assert!(false, "items are yielded"),
                    Some(v) => assert!(v.0.as_ptr() == p && v.0.len() == $n, "the first item comes first")
                }
                kani::cover!(true);
            }

            /// bounded: 4 items (the iterator is the standard library's)
            #[kani::proof]
            #[kani::unwind(6)]
            fn bounded_iter() {
                let mut b: [u8; 4 * $n] = kani::any();
                let k: usize = kani::any();
                kani::assume(k <= 4);
                let p = b.as_ptr() as usize;
                {
                    let a = unsafe { A::from_raw_parts(&b[..k * $n], k) };
                    let mut i = 0;
                    for v in a.iter::<S<&[u8], $n>>() {
                        assert!(v.0.as_ptr() as usize == p + i * $n && v.0.len() == $n, "items are yielded in order");
                        i += 1;
                    }
                    assert!(i == k, "every item is yielded");
                }
                let mut a = unsafe { A::from_raw_parts(&mut b[..k * $n], k) };
                let mut i = 0;
                for v in a.iter_mut::<S<&mut [u8], $n>>() {
                    assert!(v.0.as_ptr() as usize == p + i * $n && v.0.len() == $n, "items are yielded in order");
                    i += 1;
                }
                assert!(i == k, "every item is yielded");
            }
        }
    }
}

parts!(parts_1, 1);
parts!(parts_3, 3);
parts!(parts_8, 8);
