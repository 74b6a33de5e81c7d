//! The code generated by the real compiler (see build.rs), and its contracts.
#![allow(dead_code, unused, non_camel_case_types, non_snake_case, unnecessary_transmutes)]
#[cfg(feature = "uleq")] include!(env!("BP3D_PROTOC_ULEQ"));
#[cfg(feature = "ubeq")] include!(env!("BP3D_PROTOC_UBEQ"));
#[cfg(feature = "ileq")] include!(env!("BP3D_PROTOC_ILEQ"));
#[cfg(feature = "ibeq")] include!(env!("BP3D_PROTOC_IBEQ"));
#[cfg(feature = "ulet")] include!(env!("BP3D_PROTOC_ULET"));
#[cfg(feature = "ubet")] include!(env!("BP3D_PROTOC_UBET"));
#[cfg(feature = "ilet")] include!(env!("BP3D_PROTOC_ILET"));
#[cfg(feature = "ibet")] include!(env!("BP3D_PROTOC_IBET"));
#[cfg(feature = "views")] include!(env!("BP3D_PROTOC_VIEWS"));
#[cfg(feature = "mix")] include!(env!("BP3D_PROTOC_MIXLE"));
#[cfg(feature = "mix")] include!(env!("BP3D_PROTOC_MIXBE"));
#[cfg(feature = "messages")] include!(env!("BP3D_PROTOC_SUBLE"));
#[cfg(feature = "messages")] include!(env!("BP3D_PROTOC_SUBBE"));
#[cfg(feature = "messages")] include!(env!("BP3D_PROTOC_MSGLE"));
#[cfg(feature = "messages")] include!(env!("BP3D_PROTOC_MSGBE"));

#[cfg(kani)] mod spec;
#[cfg(kani)] mod structs;
#[cfg(all(kani, feature = "messages"))] mod messages;
#[cfg(all(kani, feature = "views"))] mod fviews;
