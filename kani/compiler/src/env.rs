//! The protocol a declaration is compiled in.
use bp3d_protoc::compiler::util::TypePathMap;
use bp3d_protoc::compiler::Protocol;
use bp3d_protoc::model::protocol::Endianness;
use std::borrow::Borrow;
use std::collections::HashMap;
use std::hash::{BuildHasher, Hash};

/// Stub of `RandomState::new` (foreign code): no randomness is needed.
pub fn state() -> std::hash::RandomState {
    unsafe { std::mem::transmute([0u64; 2]) }
}

/// What the names stand for: the address of the map, the address of the value it answers with (any name is found).
static mut KNOWN: [(*const u8, *const u8); 3] = [(std::ptr::null(), std::ptr::null()); 3];

/// Stub of `HashMap::get`: the table of `put` answers. A map of names is used with one name only.
pub struct Names<K, V, S, A>(K, V, S, A);

impl<K, V, S, A> Names<K, V, S, A>
where
    K: Eq + Hash,
    S: BuildHasher,
    A: std::alloc::Allocator,
{
    pub fn get<'a, Q: ?Sized>(map: &'a HashMap<K, V, S, A>, _: &Q) -> Option<&'a V>
    where
        K: Borrow<Q>,
        Q: Hash + Eq,
    {
        let at = map as *const HashMap<K, V, S, A> as *const u8;
        unsafe {
            // no loop: loops are unwound as far as any drop of a vector
            let k = if KNOWN[0].0 == at {
                KNOWN[0].1
            } else if KNOWN[1].0 == at {
                KNOWN[1].1
            } else if KNOWN[2].0 == at {
                KNOWN[2].1
            } else {
                std::ptr::null()
            };
            if !k.is_null() {
                return Some(&*(k as *const V));
            }
        }
        None
    }
}

/// Declares a name.
pub fn put<V>(map: &mut HashMap<String, V>, _slot: usize, name: &str, value: V) {
    map.insert(name.into(), value);
}

/// Stub of `put`
pub fn put_known<V>(map: &mut HashMap<String, V>, slot: usize, _name: &str, value: V) {
    let p = Box::into_raw(Box::new(value));
    unsafe { KNOWN[slot] = (map as *const _ as *const u8, p as *const u8) }
}

pub fn any_endianness() -> Endianness {
    if kani::any() {
        Endianness::Little
    } else {
        Endianness::Big
    }
}

pub fn empty(e: Endianness) -> Protocol {
    Protocol {
        name: String::new(),
        endianness: e,
        type_path_by_name: TypePathMap::new(),
        structs_by_name: HashMap::new(),
        messages_by_name: HashMap::new(),
        enums_by_name: HashMap::new(),
        unions_by_name: HashMap::new(),
        structs: Vec::new(),
        messages: Vec::new(),
        enums: Vec::new(),
        unions: Vec::new(),
    }
}

/// Stub of `Rc::drop_slow` (foreign code): what is no longer referenced is leaked.
pub struct Leak<T: ?Sized, A: std::alloc::Allocator>(std::rc::Rc<T, A>);

impl<T: ?Sized, A: std::alloc::Allocator> Leak<T, A> {
    pub unsafe fn drop_slow(_: &mut std::rc::Rc<T, A>) {}
}

/// Stub of `eprint!`: warnings are not checked.
pub fn quiet(_: std::fmt::Arguments<'_>) {}

/// Stub of `Message::has_payload`: whether the message of the environment extends to the end of its input.
pub fn endless(_: &bp3d_protoc::compiler::message::Message) -> bool {
    unsafe { ENDLESS }
}

pub static mut ENDLESS: bool = false;
