//! Whole declarations, given the contracts of what they are made of.
use crate::env::*;
use bp3d_protoc::compiler::structure::{self as st, Field, FieldView, FixedFieldType, Location, Structure};
use bp3d_protoc::compiler::{Error, Protocol};
use bp3d_protoc::model::structure as m;
use std::mem::ManuallyDrop;

/// Stub of `structure::Field::from_model`: what its contract promises (layout.rs) for unsigned fields of 1 to 64 bits.
pub fn place(proto: &Protocol, o: usize, value: m::StructField) -> Result<(Field, usize), Error> {
    let value = ManuallyDrop::new(value);
    let bits = value.info.get_bit_size().unwrap();
    let loc = Location { byte_offset: o / 8, bit_offset: o % 8, bit_size: bits, byte_size: (o % 8 + bits + 7) / 8 };
    Ok((Field::Fixed(st::FixedField { name: String::new(), ty: FixedFieldType::UInt64, loc, view: FieldView::None, endianness: proto.endianness }), o + bits))
}

fn decl(bits: usize) -> m::StructField {
    m::StructField { name: String::new(), info: m::StructFieldType::Unsigned { bits }, view: None, array_len: None }
}

#[kani::proof]
#[kani::unwind(5)]
#[kani::stub(std::hash::RandomState::new, state)]
#[kani::stub(std::rc::Rc::drop_slow, Leak::drop_slow)]
#[kani::stub(bp3d_protoc::compiler::structure::Field::from_model, place)]
fn bounded_structure() {
    let p = ManuallyDrop::new(empty(any_endianness()));
    let a: usize = kani::any();
    let b: usize = kani::any();
    let c: usize = kani::any();
    kani::assume(a >= 1 && a <= 64 && b >= 1 && b <= 64 && c >= 1 && c <= 64);
    let s = m::Structure { name: String::new(), fields: vec![decl(a), decl(b), decl(c)] };
    let r = ManuallyDrop::new(Structure::from_model(&p, s));
    match &*r {
        Ok(s) => {
            assert!(s.fields.len() == 3);
            assert!(s.bit_size == a + b + c);
            assert!(s.byte_size == (a + b + c + 7) / 8);
            let l = s.fields[0].loc();
            assert!(l.byte_offset == 0 && l.bit_offset == 0 && l.bit_size == a);
            let l = s.fields[1].loc();
            assert!(l.byte_offset * 8 + l.bit_offset == a && l.bit_size == b);
            let l = s.fields[2].loc();
            assert!(l.byte_offset * 8 + l.bit_offset == a + b && l.bit_size == c);
        }
        Err(_) => { assert!(false); }
    }
}

// ---------------------------------------------------------------- messages

use bp3d_protoc::compiler::message as msg;
use bp3d_protoc::model::message as mm;
use std::rc::Rc;

/// What the fields of the message are: (is_dyn_sized, is_element_dyn_sized, extends to the end of the input)
static mut KINDS: [(bool, bool, bool); 3] = [(false, false, false); 3];

/// Stub of `message::Field::from_model`: any field (`before` is what precedes it).
pub fn any_field(proto: &Protocol, before: &[msg::Field], value: mm::MessageField) -> Result<msg::Field, Error> {
    std::mem::forget(value);
    let (d, e, _) = unsafe { KINDS[before.len()] };
    let size = msg::SizeInfo { is_dyn_sized: d, is_element_dyn_sized: e };
    // `ty` tells the fields apart only through `has_payload`
    Ok(msg::Field { name: String::new(), ty: msg::FieldType::Fixed(msg::FixedField { ty: at(before.len()) }), optional: false, size, endianness: proto.endianness })
}

fn at(i: usize) -> FixedFieldType {
    match i {
        0 => FixedFieldType::UInt8,
        1 => FixedFieldType::UInt16,
        _ => FixedFieldType::UInt32,
    }
}

/// Stub of `FieldType::has_payload`
pub fn endless_field(t: &msg::FieldType) -> bool {
    let msg::FieldType::Fixed(t) = t else { return false };
    let i = match t.ty {
        FixedFieldType::UInt8 => 0,
        FixedFieldType::UInt16 => 1,
        _ => 2,
    };
    unsafe { KINDS[i].2 }
}

fn mdecl() -> mm::MessageField {
    mm::MessageField { name: String::new(), info: mm::MessageFieldType::Payload, optional: None }
}

#[kani::proof]
#[kani::unwind(5)]
#[kani::stub(std::hash::RandomState::new, state)]
#[kani::stub(std::rc::Rc::drop_slow, Leak::drop_slow)]
#[kani::stub(bp3d_protoc::compiler::message::Field::from_model, any_field)]
#[kani::stub(bp3d_protoc::compiler::message::FieldType::has_payload, endless_field)]
fn bounded_message() {
    let k: [(bool, bool, bool); 3] = [(kani::any(), kani::any(), kani::any()), (kani::any(), kani::any(), kani::any()), (kani::any(), kani::any(), kani::any())];
    // sizes which vary in their items vary, and what extends to the end of the input has no size of its own
    let ok = |k: (bool, bool, bool)| (!k.1 || k.0) && (!k.2 || k.1);
    kani::assume(ok(k[0]) && ok(k[1]) && ok(k[2]));
    unsafe { KINDS = k };
    let p = ManuallyDrop::new(empty(any_endianness()));
    let m = mm::Message { name: String::new(), fields: vec![mdecl(), mdecl(), mdecl()] };
    let r = ManuallyDrop::new(msg::Message::from_model(&p, m));
    let after = |a: (bool, bool, bool), b: (bool, bool, bool)| !a.2 && !(a.1 && b.0);
    let fits = after(k[0], k[1]) && after(k[1], k[2]) && after(k[0], k[2]);
    match &*r {
        Ok(m) => {
            assert!(fits);
            assert!(m.fields.len() == 3);
            assert!(m.size.is_dyn_sized == (k[0].0 || k[1].0 || k[2].0));
            assert!(m.size.is_element_dyn_sized == (k[0].1 || k[1].1 || k[2].1));
            assert!(matches!(&m.fields[2].ty, msg::FieldType::Fixed(t) if t.ty == at(2)));
        }
        Err(_) => { assert!(!fits); }
    }
    kani::cover!(r.is_ok());
}
