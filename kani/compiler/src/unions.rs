//! Cases of unions: `union::UnionField::from_model`.
use crate::env::*;
use bp3d_protoc::compiler::message::Referenced;
use bp3d_protoc::compiler::r#enum::Enum;
use bp3d_protoc::compiler::structure::{FieldView, FixedField, FixedFieldType, Location, Structure};
use bp3d_protoc::compiler::union::UnionField;
use bp3d_protoc::compiler::Error;
use bp3d_protoc::model::union as m;
use std::collections::HashMap;
use std::mem::ManuallyDrop;
use std::rc::Rc;

fn discriminant(ty: FixedFieldType, bits: usize, view: FieldView) -> ManuallyDrop<FixedField> {
    let loc = Location { byte_offset: 0, bit_offset: 0, byte_size: 8, bit_size: bits };
    ManuallyDrop::new(FixedField { name: String::new(), ty, loc, view, endianness: any_endianness() })
}

fn case(d: &FixedField, case: String) -> ManuallyDrop<Result<UnionField, Error>> {
    let p = ManuallyDrop::new(empty(any_endianness()));
    ManuallyDrop::new(UnionField::from_model(&p, d, m::UnionField { name: String::from("f"), case, item_type: None }))
}

fn any_bits() -> usize {
    let bits: usize = kani::any();
    kani::assume(bits >= 1 && bits <= 64);
    bits
}

fn max(bits: usize) -> usize {
    if bits == 64 { usize::MAX } else { (1usize << bits) - 1 }
}

/// a number of `N` characters: a sign or a digit, then digits
fn any_number<const N: usize>() -> (String, i64) {
    let c: [u8; N] = kani::any();
    let neg = c[0] == b'-';
    let mut v = 0i64;
    let mut i = 0;
    while i < N {
        kani::assume(c[i] >= b'0' && c[i] <= b'9' || i == 0 && neg && N > 1);
        if !(i == 0 && neg) {
            v = v * 10 + (c[i] - b'0') as i64;
        }
        i += 1;
    }
    (unsafe { String::from_utf8_unchecked(c.to_vec()) }, if neg { -v } else { v })
}

/// case numbers of unsigned and boolean discriminants
fn plain<const N: usize>(ty: FixedFieldType, view: FieldView) {
    let bits = any_bits();
    let d = discriminant(ty, bits, view);
    let (s, v) = any_number::<N>();
    let neg = s.as_bytes()[0] == b'-';
    let r = case(&d, s);
    let fits = !neg && v as usize <= max(bits);
    match &*r {
        Ok(f) => { assert!(fits && f.case == v as usize && f.item_type.is_none() && f.name.len() == 1); }
        Err(_) => { assert!(!fits); }
    }
    kani::cover!(r.is_ok());
}

/// case numbers of signed discriminants: the bits of the number in two's complement
fn signed<const N: usize>(view: FieldView) {
    let bits = any_bits();
    let d = discriminant(FixedFieldType::Int64, bits, view);
    let (s, v) = any_number::<N>();
    let r = case(&d, s);
    let half = 1i128 << (bits - 1);
    let fits = (v as i128) < half && (v as i128) >= -half;
    match &*r {
        Ok(f) => { assert!(fits && f.case == (v as usize & max(bits))); }
        Err(_) => { assert!(!fits); }
    }
    kani::cover!(matches!(&*r, Ok(f) if f.case > 5));
}

pub mod u {
use super::*;
proofs! {
fn enumerated() {
    let bits = any_bits();
    let v: usize = kani::any();
    let mut map = HashMap::new();
    let known: bool = kani::any();
    let mut e = ManuallyDrop::new(Rc::new(Enum { name: String::new(), largest: kani::any(), variants: Vec::new(), variants_map: map }));
    if known {
        put(&mut Rc::get_mut(&mut e).unwrap().variants_map, 0, "V", v);
    }
    let d = discriminant(FixedFieldType::UInt64, bits, FieldView::Enum((*e).clone()));
    let r = case(&d, String::from("V"));
    match &*r {
        Ok(f) => { assert!(known && v <= max(bits) && f.case == v); }
        Err(_) => { assert!(!known || v > max(bits)); }
    }
    kani::cover!(r.is_ok());
}
fn float_type_32() {
    let d = discriminant(FixedFieldType::Float32, any_bits(), FieldView::Transmute);
    assert!(matches!(&*case(&d, String::from("0")), Err(Error::FloatInUnionDiscriminant)));
}
fn float_type_64() {
    let d = discriminant(FixedFieldType::Float64, any_bits(), FieldView::Transmute);
    assert!(matches!(&*case(&d, String::from("0")), Err(Error::FloatInUnionDiscriminant)));
}
fn bounded_plain_1() { plain::<1>(FixedFieldType::UInt64, FieldView::None); }
fn bounded_plain_2() { plain::<2>(FixedFieldType::UInt64, FieldView::None); }
fn bounded_bool_1() { plain::<1>(FixedFieldType::Bool, FieldView::Transmute); }
fn bounded_signed_1() { signed::<1>(FieldView::Transmute); }
fn bounded_signed_2() { signed::<2>(FieldView::SignedCast(0)); }
fn bounded_signed_2t() { signed::<2>(FieldView::Transmute); }
fn payload_of_case() {
    let mut p = ManuallyDrop::new(empty(any_endianness()));
    let known: bool = kani::any();
    let s = Rc::new(Structure { name: String::new(), fields: Vec::new(), byte_size: 0, bit_size: 0 });
    if known {
        put(&mut p.structs_by_name, 0, "S", s);
    }
    let d = discriminant(FixedFieldType::UInt64, 8, FieldView::None);
    let r = ManuallyDrop::new(UnionField::from_model(&p, &d, m::UnionField { name: String::new(), case: String::from("1"), item_type: Some(String::from("S")) }));
    match &*r {
        Ok(f) => { assert!(known && f.case == 1 && matches!(&f.item_type, Some(Referenced::Struct(_)))); }
        Err(_) => { assert!(!known); }
    }
}
}
}

macro_rules! long {
    ($($n:ident $b:expr;)*) => { pub mod long { use super::*; $(
        #[kani::proof]
        #[kani::unwind(7)]
        #[kani::stub(std::hash::RandomState::new, state)]
        #[kani::stub(std::collections::HashMap::get, Names::get)]
        #[kani::stub(std::rc::Rc::drop_slow, Leak::drop_slow)]
        fn $n() { $b; }
    )* } };
}
long! {
    bounded_plain_4 plain::<4>(FixedFieldType::UInt64, FieldView::None);
    bounded_plain_6 plain::<6>(FixedFieldType::UInt64, FieldView::None);
    bounded_signed_4 signed::<4>(FieldView::Transmute);
    bounded_signed_6 signed::<6>(FieldView::SignedCast(0));
}
