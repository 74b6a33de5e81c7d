//! Fields of structures: `Field::from_model` and what it is made of.
use crate::env::*;
use bp3d_protoc::compiler::r#enum::Enum;
use bp3d_protoc::compiler::structure::*;
use bp3d_protoc::compiler::Error;
use bp3d_protoc::model::protocol::Endianness;
use bp3d_protoc::model::structure::{self as m, SimpleType, StructFieldType, StructFieldView};
use std::mem::ManuallyDrop;
use std::rc::Rc;

fn ceil8(n: usize) -> usize {
    n / 8 + (n % 8 != 0) as usize
}

/// The smallest native type of a kind which holds `bits` bits.
fn native(kind: SimpleType, bits: usize) -> FixedFieldType {
    use FixedFieldType::*;
    match kind {
        SimpleType::Unsigned => if bits <= 8 { UInt8 } else if bits <= 16 { UInt16 } else if bits <= 32 { UInt32 } else { UInt64 },
        SimpleType::Signed => if bits <= 8 { Int8 } else if bits <= 16 { Int16 } else if bits <= 32 { Int32 } else { Int64 },
        SimpleType::Float => if bits <= 32 { Float32 } else { Float64 },
        _ => Bool,
    }
}

fn placed(l: &Location, o: usize, total: usize) {
    assert!(l.byte_offset == o / 8);
    assert!(l.bit_offset == o % 8);
    assert!(l.bit_size == total);
    assert!(l.byte_size == ceil8(o % 8 + total));
}

/// The contract of `Field::from_model` for fields which are not structures. `view_fits`: the declared view applies to
/// the declared type (no view applies to all but floats without a native representation).
fn contract(info: StructFieldType, view: Option<StructFieldView>, n: Option<usize>, view_fits: bool, check_view: fn(&FieldView, usize)) {
    let e = any_endianness();
    let mut p = ManuallyDrop::new(empty(e));
    let values = Enum { name: String::new(), largest: 0, variants: Vec::new(), variants_map: Default::default() };
    put(&mut p.enums_by_name, 0, "E", Rc::new(values));
    let kind = info.get_simple_type();
    let bits = info.get_bit_size().unwrap();
    let viewed = view.is_some();
    let o: usize = kani::any();
    let decl = m::StructField { name: String::from("f"), info, view, array_len: n };
    if view_fits && viewed && kind == SimpleType::Unsigned {
        // Kani gets the release of the clone of the enumeration wrong (drop of `FieldView` on the way out)
        kani::assume(bits >= 1 && bits <= 64 && o <= usize::MAX - 64);
    }
    let r = ManuallyDrop::new(verif::field(&p, o, decl));
    let k = n.unwrap_or(1);
    let fits = bits >= 1 && bits <= 64 && k >= 1 && k <= usize::MAX / 64 && (k == 1 || bits % 8 == 0 && o % 8 == 0) && bits * k <= usize::MAX - o;
    // above 2^58 items: fits only with less than 64 bits per item; left open, but for what is placed
    let huge = k > usize::MAX / 64;
    match &*r {
        Ok((f, next)) => {
            assert!(huge || fits && view_fits);
            let total = bits.checked_mul(k);
            assert!(total.is_some());
            let total = total.unwrap();
            assert!(o.checked_add(total) == Some(*next));
            assert!(f.name().len() == 1);
            match f {
                Field::Fixed(v) => {
                    assert!(k == 1);
                    assert!(v.endianness == e);
                    placed(&v.loc, o, total);
                    if kind != SimpleType::Float || !viewed {
                        assert!(v.ty == native(kind, bits));
                    } else {
                        assert!(v.ty == FixedFieldType::Float32 || v.ty == FixedFieldType::Float64);
                    }
                    check_view(&v.view, bits);
                }
                Field::Array(v) => {
                    assert!(k > 1 && v.array_len == k);
                    assert!(v.endianness == e);
                    placed(&v.loc, o, total);
                    if kind != SimpleType::Float || !viewed {
                        assert!(v.ty == native(kind, bits));
                    }
                }
                Field::Struct(_) => { assert!(false); }
            }
        }
        Err(_) => { assert!(huge || !fits || !view_fits); }
    }
    kani::cover!(fits && r.is_ok() == view_fits);
}

fn no_view(kind: SimpleType, n: Option<usize>) {
    let bits: usize = kani::any();
    match kind {
        SimpleType::Unsigned => contract(StructFieldType::Unsigned { bits }, None, n, true, |v, _| { assert!(matches!(v, FieldView::None)); }),
        SimpleType::Boolean => contract(StructFieldType::Boolean { bits }, None, n, true, |v, _| { assert!(matches!(v, FieldView::Transmute)); }),
        SimpleType::Float => contract(StructFieldType::Float { bits }, None, n, bits == 32 || bits == 64, |v, _| { assert!(matches!(v, FieldView::Transmute)); }),
        _ => contract(StructFieldType::Signed { bits }, None, n, true, |v, bits| {
            if bits == 8 || bits == 16 || bits == 32 || bits == 64 {
                assert!(matches!(v, FieldView::Transmute));
            } else {
                assert!(matches!(v, FieldView::SignedCast(max) if *max == (1usize << (bits - 1)) - 1));
            }
        }),
    }
}

proofs! {
fn location() {
    let b: usize = kani::any();
    let o: usize = kani::any();
    kani::assume(b <= usize::MAX - 7);
    placed(&verif::location(b, o), o, b);
}

fn unsigned() { no_view(SimpleType::Unsigned, None); }
fn unsigned_array() { no_view(SimpleType::Unsigned, Some(kani::any())); }
fn signed() { no_view(SimpleType::Signed, None); }
fn signed_array() { no_view(SimpleType::Signed, Some(kani::any())); }
fn boolean() { no_view(SimpleType::Boolean, None); }
fn boolean_array() { no_view(SimpleType::Boolean, Some(kani::any())); }
fn float() { no_view(SimpleType::Float, None); }
fn float_array() { no_view(SimpleType::Float, Some(kani::any())); }

fn enum_view() {
    contract(StructFieldType::Unsigned { bits: kani::any() }, Some(StructFieldView::Enum { name: String::from("E") }), None, true,
        |v, _| { assert!(matches!(v, FieldView::Enum(_))); });
}
fn enum_view_signed() {
    contract(StructFieldType::Signed { bits: kani::any() }, Some(StructFieldView::Enum { name: String::from("E") }), None, false, |_, _| {});
}
fn enum_view_float() {
    contract(StructFieldType::Float { bits: kani::any() }, Some(StructFieldView::Enum { name: String::from("E") }), None, false, |_, _| {});
}
fn enum_view_boolean() {
    contract(StructFieldType::Boolean { bits: kani::any() }, Some(StructFieldView::Enum { name: String::from("E") }), None, false, |_, _| {});
}
fn range_view() {
    contract(StructFieldType::Float { bits: kani::any() }, Some(StructFieldView::FloatRange { min: 1.0, max: 3.0 }), None, true,
        |v, _| { assert!(matches!(v, FieldView::Float { b, .. } if *b == 1.0)); });
}
fn range_view_unsigned() {
    contract(StructFieldType::Unsigned { bits: kani::any() }, Some(StructFieldView::FloatRange { min: 1.0, max: 3.0 }), None, false, |_, _| {});
}
fn range_view_signed() {
    contract(StructFieldType::Signed { bits: kani::any() }, Some(StructFieldView::FloatRange { min: 1.0, max: 3.0 }), None, false, |_, _| {});
}
fn multiplier_view() {
    contract(StructFieldType::Float { bits: kani::any() }, Some(StructFieldView::FloatMultiplier { multiplier: 0.5 }), None, true,
        |v, _| { assert!(matches!(v, FieldView::Float { a, b, .. } if *a == 0.5 && *b == 0.0)); });
}
fn multiplier_view_boolean() {
    contract(StructFieldType::Boolean { bits: kani::any() }, Some(StructFieldView::FloatMultiplier { multiplier: 0.5 }), None, false, |_, _| {});
}
fn multiplier_view_unsigned() {
    contract(StructFieldType::Unsigned { bits: kani::any() }, Some(StructFieldView::FloatMultiplier { multiplier: 0.5 }), None, false, |_, _| {});
}

fn nested() {
    let mut p = ManuallyDrop::new(empty(any_endianness()));
    let bits: usize = kani::any();
    let s = Structure { name: String::new(), fields: Vec::new(), byte_size: ceil8(bits), bit_size: bits };
    put(&mut p.structs_by_name, 0, "S", Rc::new(s));
    let o: usize = kani::any();
    let info = StructFieldType::Struct { item_type: String::from("S") };
    let r = ManuallyDrop::new(verif::field(&p, o, m::StructField { name: String::from("f"), info, view: None, array_len: None }));
    match &*r {
        Ok((Field::Struct(f), next)) => {
            assert!(o % 8 == 0);
            assert!(o.checked_add(bits) == Some(*next));
            assert!(f.r.bit_size == bits && f.name.len() == 1);
            placed(&f.loc, o, bits);
        }
        Ok(_) => { assert!(false); }
        Err(_) => { assert!(o % 8 != 0 || bits > usize::MAX - o); }
    }
    kani::cover!(r.is_ok());
}
fn nested_unknown() {
    let p = ManuallyDrop::new(empty(any_endianness()));
    let info = StructFieldType::Struct { item_type: String::from("S") };
    let r = ManuallyDrop::new(verif::field(&p, kani::any(), m::StructField { name: String::new(), info, view: None, array_len: None }));
    assert!(matches!(&*r, Err(Error::UndefinedReference(_))));
}
fn enum_unknown() {
    let p = ManuallyDrop::new(empty(any_endianness()));
    let info = StructFieldType::Unsigned { bits: 8 };
    let view = Some(StructFieldView::Enum { name: String::from("E") });
    let r = ManuallyDrop::new(verif::field(&p, kani::any(), m::StructField { name: String::new(), info, view, array_len: None }));
    assert!(matches!(&*r, Err(Error::UndefinedReference(_))));
}

fn max_value() {
    let max: usize = kani::any();
    let r = ManuallyDrop::new(FixedFieldType::from_max_value(max));
    let expect = if max < 1 << 8 { FixedFieldType::UInt8 } else if max < 1 << 16 { FixedFieldType::UInt16 } else if max < 1 << 32 { FixedFieldType::UInt32 } else { FixedFieldType::UInt64 };
    assert!(matches!(&*r, Ok(t) if *t == expect));
}
}
