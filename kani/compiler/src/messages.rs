//! Fields of messages: `message::Field::from_model`.
use crate::env::*;
use bp3d_protoc::compiler::message::*;
use bp3d_protoc::compiler::structure::{self as st, FieldView, FixedFieldType, Location, Structure};
use bp3d_protoc::compiler::union::{DiscriminantField, Union, UnionField};
use bp3d_protoc::compiler::{Error, Protocol};
use bp3d_protoc::model::message::{MessageField, MessageFieldType};
use bp3d_protoc::model::protocol::Endianness;
use std::mem::ManuallyDrop;
use std::rc::Rc;

type Outcome = ManuallyDrop<Result<Field, Error>>;

fn compile(p: &Protocol, before: &[Field], info: MessageFieldType, optional: Option<bool>) -> Outcome {
    ManuallyDrop::new(verif::field(p, before, MessageField { name: String::from("f"), info, optional }))
}

fn unsigned(max: usize) -> FixedFieldType {
    if max < 1 << 8 {
        FixedFieldType::UInt8
    } else if max < 1 << 16 {
        FixedFieldType::UInt16
    } else if max < 1 << 32 {
        FixedFieldType::UInt32
    } else {
        FixedFieldType::UInt64
    }
}

fn common(f: &Field, optional: Option<bool>, is_dyn_sized: bool, is_element_dyn_sized: bool) {
    assert!(f.name.len() == 1);
    assert!(f.optional == (optional == Some(true)));
    assert!(f.size.is_dyn_sized == is_dyn_sized);
    assert!(f.size.is_element_dyn_sized == is_element_dyn_sized);
}

fn structure(fields: Vec<st::Field>) -> Rc<Structure> {
    Rc::new(Structure { name: String::new(), fields, byte_size: kani::any(), bit_size: kani::any() })
}

fn any_size() -> SizeInfo {
    SizeInfo { is_dyn_sized: kani::any(), is_element_dyn_sized: kani::any() }
}

fn payload_field() -> Field {
    Field { name: String::new(), ty: FieldType::Payload, optional: false, size: any_size(), endianness: Endianness::Little }
}

fn any_native() -> FixedFieldType {
    use FixedFieldType::*;
    match kani::any::<u8>() {
        0 => Int8, 1 => Int16, 2 => Int32, 3 => Int64, 4 => UInt8, 5 => UInt16, 6 => UInt32, 7 => UInt64, 8 => Float32, 9 => Float64, _ => Bool,
    }
}

/// an item whose structure has one field
fn single(view: FieldView) {
    let e = any_endianness();
    let own = any_endianness();
    let mut p = ManuallyDrop::new(empty(e));
    let plain = matches!(&view, FieldView::None | FieldView::Transmute);
    let ty = any_native();
    let bits: usize = kani::any();
    let loc = Location { byte_offset: 0, bit_offset: 0, byte_size: kani::any(), bit_size: bits };
    let r = structure(vec![st::Field::Fixed(st::FixedField { name: String::new(), ty, loc, view, endianness: own })]);
    put(&mut p.structs_by_name, 0, "S", r);
    let optional: Option<bool> = kani::any();
    let r = compile(&p, &[], MessageFieldType::Item { item_type: String::from("S") }, optional);
    match &*r {
        Ok(f) => {
            common(f, optional, false, false);
            // such an item is a plain number exactly when the structure is nothing more than this number
            let inlined = plain && bits == ty.get_byte_size() * 8;
            match &f.ty {
                FieldType::Fixed(v) => { assert!(inlined && v.ty == ty && f.endianness == own); }
                FieldType::Ref(Referenced::Struct(_)) => { assert!(!inlined); }
                _ => { assert!(false); }
            }
        }
        Err(_) => { assert!(false); }
    }
}

/// strings
fn string(max: Option<usize>) {
    let e = any_endianness();
    let p = ManuallyDrop::new(empty(e));
    let optional: Option<bool> = kani::any();
    let r = compile(&p, &[], MessageFieldType::String { max_len: max }, optional);
    match &*r {
        Ok(f) => {
            common(f, optional, true, false);
            assert!(f.endianness == e);
            match (&f.ty, max) {
                (FieldType::NullTerminatedString, None) => {}
                (FieldType::VarcharString(v), Some(max)) => { assert!(v.ty == unsigned(max)); }
                _ => { assert!(false); }
            }
        }
        Err(_) => { assert!(false); }
    }
}

/// a list or an item of messages; the item type extends to the end of its input or not
fn of_message(list: bool) {
    let endless: bool = kani::any();
    let mut fields = Vec::new();
    if endless {
        fields.push(payload_field());
    }
    unsafe { ENDLESS = endless };
    let e = any_endianness();
    let size = any_size();
    let mut p = ManuallyDrop::new(empty(e));
    let m = Rc::new(verif::message(String::new(), fields, size));
    let m2 = ManuallyDrop::new(m.clone());
    put(&mut p.messages_by_name, 0, "M", m);
    let optional: Option<bool> = kani::any();
    let max: usize = kani::any();
    let item_type = String::from("M");
    let info = if list { MessageFieldType::List { max_len: max, item_type } } else { MessageFieldType::Item { item_type } };
    let r = compile(&p, &[], info, optional);
    match &*r {
        Ok(f) => {
            assert!(f.endianness == e);
            assert!(m2.is_embedded());
            match &f.ty {
                FieldType::List(v) => {
                    assert!(list && !endless);
                    assert!(v.ty == unsigned(max));
                    common(f, optional, true, true);
                }
                FieldType::Ref(Referenced::Message(_)) => {
                    assert!(!list);
                    common(f, optional, size.is_dyn_sized, size.is_element_dyn_sized);
                }
                _ => { assert!(false); }
            }
        }
        Err(_) => { assert!(list && endless); }
    }
}

/// a union read under the discriminant of another field
fn union(before: &[Field], known: bool, on_index: usize, matches: bool, root: &Rc<Structure>) {
    let e = any_endianness();
    let size = any_size();
    let mut p = ManuallyDrop::new(empty(e));
    let u = Union {
        name: String::new(),
        discriminant: DiscriminantField { root: root.clone(), leaf: root.clone(), leaf_index: 0, index_list: Vec::new() },
        cases: Vec::new(),
        size,
    };
    if known {
        put(&mut p.unions_by_name, 0, "U", Rc::new(u));
    } else {
        std::mem::forget(u);
    }
    let r = compile(&p, before, MessageFieldType::Union { on: String::from("h"), item_type: String::from("U") }, None);
    match &*r {
        Ok(f) => {
            assert!(known && matches);
            common(f, None, size.is_dyn_sized, size.is_element_dyn_sized);
            match &f.ty {
                FieldType::Union(v) => { assert!(v.on_index == on_index && Rc::ptr_eq(&v.r.discriminant.root, root)); }
                _ => { assert!(false); }
            }
        }
        Err(_) => { assert!(!known || !matches); }
    }
}

fn header(name: &str, r: &Rc<Structure>) -> Field {
    Field {
        name: name.into(),
        ty: FieldType::Ref(Referenced::Struct(r.clone())),
        optional: false,
        size: SizeInfo { is_dyn_sized: false, is_element_dyn_sized: false },
        endianness: Endianness::Little,
    }
}

proofs! {
fn single_plain() { single(FieldView::None); }
fn single_transmute() { single(FieldView::Transmute); }
fn single_signed() { single(FieldView::SignedCast(kani::any())); }
fn single_float() { single(FieldView::Float { a: 1.0, b: 0.0, a_inv: 1.0, b_inv: 0.0 }); }

fn item_of_array() {
    let e = any_endianness();
    let mut p = ManuallyDrop::new(empty(e));
    let loc = Location { byte_offset: 0, bit_offset: 0, byte_size: kani::any(), bit_size: kani::any() };
    let r = structure(vec![st::Field::Array(st::FixedArrayField { name: String::new(), ty: any_native(), array_len: kani::any(), loc, endianness: e })]);
    put(&mut p.structs_by_name, 0, "S", r);
    let optional: Option<bool> = kani::any();
    let r = compile(&p, &[], MessageFieldType::Item { item_type: String::from("S") }, optional);
    match &*r {
        Ok(f) => {
            common(f, optional, false, false);
            assert!(matches!(&f.ty, FieldType::Ref(Referenced::Struct(_))));
        }
        Err(_) => { assert!(false); }
    }
}
fn item_of_empty() {
    let mut p = ManuallyDrop::new(empty(any_endianness()));
    put(&mut p.structs_by_name, 0, "S", structure(Vec::new()));
    let optional: Option<bool> = kani::any();
    let r = compile(&p, &[], MessageFieldType::Item { item_type: String::from("S") }, optional);
    match &*r {
        Ok(f) => {
            common(f, optional, false, false);
            assert!(matches!(&f.ty, FieldType::Ref(Referenced::Struct(_))));
        }
        Err(_) => { assert!(false); }
    }
}
fn list_of_structures() {
    let e = any_endianness();
    let mut p = ManuallyDrop::new(empty(e));
    put(&mut p.structs_by_name, 0, "S", structure(Vec::new()));
    let optional: Option<bool> = kani::any();
    let max: usize = kani::any();
    let r = compile(&p, &[], MessageFieldType::List { max_len: max, item_type: String::from("S") }, optional);
    match &*r {
        Ok(f) => {
            common(f, optional, true, false);
            assert!(f.endianness == e);
            assert!(matches!(&f.ty, FieldType::Array(v) if v.ty == unsigned(max)));
        }
        Err(_) => { assert!(false); }
    }
}
fn string_terminated() { string(None); }
fn string_prefixed() { string(Some(kani::any())); }
fn payload() {
    let p = ManuallyDrop::new(empty(any_endianness()));
    let optional: Option<bool> = kani::any();
    let r = compile(&p, &[], MessageFieldType::Payload, optional);
    match &*r {
        Ok(f) => {
            common(f, optional, true, true);
            assert!(matches!(&f.ty, FieldType::Payload));
        }
        Err(_) => { assert!(false); }
    }
}
fn item_of_message() { of_message(false); }
fn list_of_messages() { of_message(true); }
fn union_found() {
    let r = structure(Vec::new());
    let before = ManuallyDrop::new([header("g", &r), header("h", &r)]);
    union(&before[..], true, 1, true, &r);
}
fn union_unknown() {
    let r = structure(Vec::new());
    let before = ManuallyDrop::new([header("h", &r)]);
    union(&before[..], false, 0, true, &r);
}
fn union_without_discriminant() {
    let r = structure(Vec::new());
    let before = ManuallyDrop::new([header("g", &r)]);
    union(&before[..], true, 0, false, &r);
}
fn union_on_other_structure() {
    let r = structure(Vec::new());
    let other = structure(Vec::new());
    let before = ManuallyDrop::new([header("h", &other)]);
    union(&before[..], true, 0, false, &r);
}
fn union_on_payload() {
    let r = structure(Vec::new());
    let mut f = payload_field();
    f.name = String::from("h");
    let before = ManuallyDrop::new([f]);
    union(&before[..], true, 0, false, &r);
}
fn unknown_item() {
    let p = ManuallyDrop::new(empty(any_endianness()));
    let r = compile(&p, &[], MessageFieldType::Item { item_type: String::from("S") }, None);
    assert!(matches!(&*r, Err(Error::UndefinedReference(_))));
}
fn unknown_list() {
    let p = ManuallyDrop::new(empty(any_endianness()));
    let r = compile(&p, &[], MessageFieldType::List { max_len: kani::any(), item_type: String::from("S") }, None);
    assert!(matches!(&*r, Err(Error::UndefinedReference(_))));
}

// which fields extend to the end of the input: `FieldType::has_payload`, given `Message::has_payload`
fn endless_payload() { assert!(verif::has_payload(&FieldType::Payload)); }
fn endless_message() {
    let endless: bool = kani::any();
    unsafe { ENDLESS = endless };
    let mut fields = Vec::new();
    if endless {
        fields.push(payload_field());
    }
    let t = ManuallyDrop::new(FieldType::Ref(Referenced::Message(Rc::new(verif::message(String::new(), fields, any_size())))));
    assert!(verif::has_payload(&t) == endless);
}
fn endless_nothing_else() {
    unsafe { ENDLESS = true };
    let s = structure(Vec::new());
    let t = ManuallyDrop::new([
        FieldType::Fixed(FixedField { ty: any_native() }),
        FieldType::Ref(Referenced::Struct(s.clone())),
        FieldType::NullTerminatedString,
        FieldType::VarcharString(VarcharStringField { ty: any_native() }),
        FieldType::Array(ArrayField { ty: any_native(), item_type: s.clone() }),
    ]);
    assert!(!verif::has_payload(&t[0]));
    assert!(!verif::has_payload(&t[1]));
    assert!(!verif::has_payload(&t[2]));
    assert!(!verif::has_payload(&t[3]));
    assert!(!verif::has_payload(&t[4]));
}
fn endless_union() {
    let endless: bool = kani::any();
    unsafe { ENDLESS = endless };
    let s = structure(Vec::new());
    let mut fields = Vec::new();
    if endless {
        fields.push(payload_field());
    }
    let m = Rc::new(verif::message(String::new(), fields, any_size()));
    let cases = vec![
        UnionField { name: String::new(), case: 0, item_type: None },
        UnionField { name: String::new(), case: 1, item_type: Some(Referenced::Message(m)) },
    ];
    let u = Union {
        name: String::new(),
        discriminant: DiscriminantField { root: s.clone(), leaf: s.clone(), leaf_index: 0, index_list: Vec::new() },
        cases,
        size: any_size(),
    };
    let t = ManuallyDrop::new(FieldType::Union(bp3d_protoc::compiler::message::UnionField { r: Rc::new(u), on_name: String::new(), on_index: 0 }));
    assert!(verif::has_payload(&t) == endless);
}
}
