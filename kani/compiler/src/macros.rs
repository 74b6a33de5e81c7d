macro_rules! proofs {
    ($($(#[$a:meta])* $v:vis fn $n:ident() $b:block)*) => { $(
        #[kani::proof]
        #[kani::unwind(3)]
        #[kani::stub(std::hash::RandomState::new, state)]
        #[kani::stub(std::collections::HashMap::get, Names::get)]
        #[kani::stub(crate::env::put, put_known)]
        #[kani::stub(std::io::_eprint, quiet)]
        #[kani::stub(bp3d_protoc::compiler::message::Message::has_payload, endless)]
        #[kani::stub(std::rc::Rc::drop_slow, Leak::drop_slow)]
        $v fn $n() $b
    )* };
}
