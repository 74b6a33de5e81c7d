"""The properties, and the deductive-verification jobs which decide each of them.

Every job runs Kani (CBMC) on contracts whose subject is /repo's current source: the `runtime` crate of
/verif/kani links /repo/runtime, the `gen` crate runs /repo/compiler on the schemas of its corpus and
verifies the Rust which comes out, the `compiler` crate links /repo/compiler itself.
"""

RT = "runtime/src/"
CP = "compiler/src/"

T_STD = "the Rust standard library as compiled by Kani (slices, integers, Vec, Box), Kani 0.68 and CBMC 6.11 with CaDiCaL"
T_UTF8 = "std::str::from_utf8 replaced by an oracle (any text valid or not)"
T_SLICE = "inputs are byte slices of any length up to 2^40"
T_WRITE = "writers: legal std::io::Write implementations which accept any prefix and then fail"
T_CORPUS = "the compiler is run by cargo on the schemas of kani/gen/corpus (its build script); the contracts quantify over the data, the schemas are enumerated"
A_MACH = "machine arithmetic is the machine's (wrapping and overflow checks as in a debug build); nothing is treated as mathematical"
A_TARGET = "64 bit little endian target (the one Kani compiles for)"


def rt(name, harness, scope, **k):
    return dict(name=name, tool="kani", crate="runtime", harness=harness, scope=scope, stubbing=True, bounded=k.pop("bounded", r"bounded_"), **k)


def gen(name, features, harness, scope, **k):
    return dict(name=name, tool="kani", crate="gen", features=features, harness=harness, scope=scope, stubbing=True, bounded=k.pop("bounded", r"bounded_"), **k)


T_COMPILER = ("names: HashMap::get answers with the declared value or nothing (stub; hashing is foreign code), RandomState::new, Rc::drop_slow (what is released is leaked) "
              "and eprint! are stubbed; has_payload and the field compilers are replaced by their own contracts where a whole declaration is compiled")


def comp(name, harness, scope, **k):
    """functions of the compiler itself (hook: cfg(kani) makes them reachable)"""
    return dict(name=name, tool="kani", crate="compiler", harness=harness, scope=scope, stubbing=True, bounded=k.pop("bounded", r"bounded_"), **k)


def verus(name, functions, min_functions, **k):
    """unbounded proofs of the readers with loops (verus/lists.rs.in)"""
    return dict(name=name, tool="verus", spec="lists", only=functions, min_functions=min_functions, units=functions,
                scope="any number of items, any conforming decoder of items and prefixes, any input", **k)


def msg(kinds, harness, scope, name="messages", **k):
    hs = []
    for e in ("le", "be"):
        for h in harness:
            for kind in kinds:
                hs.append("messages::msg%s::%s%s" % (e, h, "::" + kind if kind else ""))
    return gen(name, "messages", hs, scope, **k)


PROPERTIES = {}


def prop(pid, title, statement, over, quant, why, files, mech, jobs, functions, level="proof", trusted=(), explanation="", assumptions=(), state=None, observe=None, hook=None):
    PROPERTIES[pid] = dict(
        title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, jobs=jobs, functions=functions,
        level=level, trusted=[T_STD] + list(trusted), explanation=explanation, assumptions=[A_MACH, A_TARGET] + list(assumptions),
        state=state, observe=observe, hook=hook)


prop("P01", "Bit fields are read and written exactly, in either bit order",
     "Reading a bit field gives the number made of exactly its bits, and writing a number changes exactly these bits to the low bits of the number and no other bit of the buffer. This holds for every bit offset in a byte, every width from 1 to 64 bits, and in both bit orders (least significant bit first, most significant bit first).",
     ["inputs"], "every buffer content, every bit offset 0..7, every width 1..64, every value, both bit orders",
     "the tests read and write one or two hand picked fields per width; 1024 combinations of offset, width and order with 2^72 contents are left",
     [RT + "codec/bits.rs"], [("bit codecs", RT + "codec/bits.rs: BitCodecLE, BitCodecBE")],
     [rt("bits", ["bits::"], "all offsets, widths and contents of the up to 9 bytes of the field; the types which can hold the width", min_harnesses=64, harness_timeout=300)],
     ["BitCodecLE::read", "BitCodecLE::write", "BitCodecBE::read", "BitCodecBE::write"],
     explanation="64 contracts, one per (order, operation, bit offset, half of the widths); each checks get/put against a window of 72 bits described independently")

prop("P02", "Byte aligned numbers keep their value, also in fewer bytes than their type",
     "A number stored on whole bytes is read as the number its bytes spell in the declared byte order, and writing stores its low bytes in that order, touching nothing else. A number read from too few bytes is a truncation error, and a number written takes exactly its size.",
     ["inputs"], "every value of every numeric type (8 to 64 bits, signed, unsigned, float), every storage width from 1 byte to the type's width, both byte orders, every input length",
     "tests use a few constants of two widths in one byte order",
     [RT + "codec/bytes.rs", RT + "message/util/common.rs"], [("byte codecs", RT + "codec/bytes.rs"), ("message values", RT + "message/util/common.rs: ValueLE, ValueBE")],
     [rt("bytes", ["bytes::"], "all values, all widths", min_harnesses=20), rt("values", ["values::"], "all values, inputs of any length, writers failing anywhere", min_harnesses=60)],
     ["ByteCodecLE/BE::read_aligned, read, write_aligned, write", "ValueLE/BE::from_slice, write_to"], trusted=[T_SLICE, T_WRITE])

prop("P03", "Fixed arrays store and return each item at its own place",
     "Item i of a fixed array of numbers is the number in the i-th group of bytes of the array, for reading, writing and iterating. Writing an item leaves every other byte of the structure unchanged, and the number of items is the declared one.",
     ["inputs"], "every buffer, every index in range, every item width in bytes from 1 to 8, both byte orders",
     "tests write and read a handful of indices of one array",
     [RT + "codec/arrays.rs", CP + "compiler/structure.rs", CP + "gen/base/structure.rs"],
     [("array codec", RT + "codec/arrays.rs: ArrayCodec"), ("generated array accessors", CP + "gen/rust/structure.field.template")],
     [rt("arrays", ["fixed::u8", "fixed::u16", "fixed::u24", "fixed::u32", "fixed::u64"], "any buffer length for get, set and len; iteration bounded by 4 items", harness_timeout=300,
         harness_thorough=["fixed::u40", "fixed::u48", "fixed::u56"], min_harnesses=40),
      gen("generated", "mix", ["mixle::arrays", "mixbe::arrays"], "arrays of 8 item types in one structure, all contents, all indices", min_harnesses=2),
      gen("known", "mix", ["known_signed_array"], "items of signed arrays with a width which is not one of a native integer", min_harnesses=2,
          known=["structs::mixle::known_signed_array", "structs::mixbe::known_signed_array"])],
     ["ArrayCodec::get_raw", "ArrayCodec::set_raw", "ArrayCodec::len", "ArrayCodec::iter_raw", "generated get_X / get_X_mut of arrays"], trusted=[T_CORPUS],
     assumptions=["the iteration contracts are bounded (4 items) and not counted as proved"])

prop("P04", "Structure fields are packed in order and accessed independently",
     "The fields of a structure follow each other bit by bit in declaration order, and the structure takes the bits of its fields rounded up to whole bytes. Reading a field gives exactly its bits; writing a field gives the value back on reading and leaves all other fields unchanged.",
     ["inputs", "configurations"], "every content and value; structures with fields of every width 1..64 starting at every bit offset 0..7, in both byte orders (16 boundary widths in the quick tier, all of them in the thorough tier)",
     "the tests have a dozen structures with few straddling fields and compare a few constants",
     [CP + "compiler/structure.rs", CP + "gen/base/structure.rs", CP + "gen/rust/structure.field.template", RT + "codec/bits.rs"],
     [("location of fields", CP + "compiler/structure.rs: Location::from_model, Structure::from_model"), ("choice of the codec", CP + "gen/base/structure.rs"), ("accessors", CP + "gen/rust/structure.field.template")],
     [gen("unsigned", "uleq,ubeq", ["structs::uleq", "structs::ubeq"], "16 widths x 8 offsets x 2 byte orders, all contents and values", min_harnesses=48),
      gen("all_widths", "ulet,ubet", ["structs::ulet", "structs::ubet"], "the other 48 widths", thorough_only=True, min_harnesses=96, timeout=3000)],
     ["generated get_X, set_X, get_raw_X, set_raw_X", "generated SIZE constants"], trusted=[T_CORPUS])

prop("P05", "Nested structures address the bits of the outer structure",
     "A field of a structure nested at any depth is read from, and written to, the bits which the nested structure occupies in the outermost one. Nothing outside of the field changes, and arrays, booleans and padding around do not shift it.",
     ["inputs"], "every content and value of structures nested up to three deep with arrays, sub-byte fields and trailing padding, in both byte orders",
     "one nested structure is tested with constants",
     [CP + "compiler/structure.rs", CP + "gen/base/structure.rs", CP + "gen/rust/structure.field.template"],
     [("struct fields", CP + "compiler/structure.rs: Field::from_model"), ("struct accessors", CP + "gen/rust/structure.field.template")],
     [gen("nested", "mix", ["mixle::inner", "mixle::mid", "mixle::outer", "mixbe::inner", "mixbe::mid", "mixbe::outer"], "all contents and values", min_harnesses=6)],
     ["generated get_X / get_X_mut of structures and what they lead to"], trusted=[T_CORPUS])

prop("P06", "Signed, boolean and float fields interpret their bits faithfully",
     "A signed field reads as the two's complement value of its bits and any value in its range is given back unchanged after writing. A boolean field is true exactly when one of its bits is set, and a 32 or 64 bit float field is the IEEE number with these bits, NaN payloads included.",
     ["inputs", "configurations"], "every content and value, every width and bit offset, both byte orders (16 boundary widths in the quick tier, all of them in the thorough tier)",
     "tests check two or three negative numbers",
     [CP + "compiler/structure.rs", CP + "gen/base/structure.rs", CP + "gen/rust/structure.field.template"],
     [("views", CP + "compiler/structure.rs: FieldView::from_model"), ("view accessors", CP + "gen/rust/structure.field.template")],
     [gen("signed", "ileq,ibeq", ["structs::ileq", "structs::ibeq"], "16 widths x 8 offsets x 2 byte orders, all contents and values", min_harnesses=48),
      gen("booleans_floats", "mix", ["mixle::bools", "mixle::floats", "mixbe::bools", "mixbe::floats"], "all contents and values", min_harnesses=4),
      gen("all_widths", "ilet,ibet", ["structs::ilet", "structs::ibet"], "the other 48 widths", thorough_only=True, min_harnesses=96, timeout=3000)],
     ["generated get_X, set_X of signed, boolean and float fields"], trusted=[T_CORPUS])

prop("P07", "Enumerations only ever show declared variants",
     "Reading an enumerated field gives the declared variant with this number, and nothing when no variant has this number. Writing a variant stores its number and reading it back gives the same variant, without touching the bits around.",
     ["inputs"], "every content; enumerations with gaps, with a largest value below and at the maximum of the field, fields of 3 to 64 bits, aligned or not, both byte orders",
     "a test reads one declared value; an undeclared value would be undefined behaviour the tests do not provoke",
     [CP + "compiler/enum.rs", CP + "gen/rust/enum.template", CP + "gen/rust/structure.field.template"],
     [("enum views", CP + "gen/rust/structure.field.template"), ("declared variants", CP + "compiler/enum.rs: Enum::from_model")],
     [gen("enums", "mix", ["mixle::enums", "mixbe::enums"], "8 fields over 3 enumerations, all contents, all variants", min_harnesses=2)],
     ["generated get_X, set_X of enumerated fields"], trusted=[T_CORPUS])

prop("P08", "Scaled float fields map the raw range to the declared interval and back",
     "A field with a declared interval reads its smallest raw value as the lower end and its largest as the upper end, linearly in between, and a field with a multiplier reads the raw value times the multiplier. Writing a value read from the field stores a raw value which reads as the same value, up to the precision of the number type, and other bits are unchanged.",
     ["inputs"], "every raw value of fields of 4 to 32 bits with an interval and of 7 to 32 bits with a multiplier",
     "one test writes three values with a tolerance",
     [CP + "compiler/structure.rs", CP + "gen/rust/structure.field.template", CP + "gen/base/structure.rs"],
     [("affine views", CP + "compiler/structure.rs: FieldView::from_model"), ("view accessors", CP + "gen/rust/structure.field.template")],
     [gen("views", "views", ["fviews::range_4", "fviews::range_7", "fviews::range_8", "fviews::range_12", "fviews::range_20", "fviews::range_32", "fviews::multiplier"],
          "all contents", harness_thorough=["fviews::range_16", "fviews::range_17::get"], min_harnesses=10, harness_timeout=400)],
     ["generated get_X, set_X of float views"], trusted=[T_CORPUS],
     assumptions=["intervals and multipliers are chosen so that the steps are exact (powers of two) where the contract demands equality"])

prop("P09", "Decoding any bytes never panics and never leaves its input",
     "Decoding arbitrary bytes as any kind of field or message returns a value or an error: it never panics, overflows, loops forever or reads outside of the input. What it returns is a view on the input, and the size it reports never exceeds the input.",
     ["inputs"], "every byte sequence of any length (up to 2^40 bytes; up to 8 to 24 bytes where the decoder loops over items)",
     "the tests only decode well formed inputs they produced themselves",
     [RT + "message/util/common.rs", RT + "message/util/string.rs", RT + "message/util/list.rs", RT + "message/util/array.rs", CP + "gen/rust/message.from_slice.template"],
     [("field decoders", RT + "message/util/"), ("message decoders", CP + "gen/rust/message.from_slice.template")],
     [rt("fields", ["::decode", "opt::optional_decode", "opt::optional_offsets", "opt::buffer_decode", "opt::list_step", "strings::bounded_nul_decode", "lists::bounded_unsized"], "any length; bounded where marked", min_harnesses=40),
      msg(["decode"], ["arr_", "u1_", "nul", "bounded_nul", "wrapopt_", "lst_", "pay_"], "any length; bounded where marked", min_harnesses=10),
      msg([None], ["bounded_lst_items"], "inputs of at most 8 bytes", name="items", thorough_only=True),
      verus("any_items", ["List::from_slice", "Unsized::from_slice", "Iter::next", "IterOffsets::next", "Optional::from_slice", "Optional::from_slice_with_offsets", "Buffer::from_slice", "Message::", "whole", "items_"], 8, safety=True)],
     ["FromSlice::from_slice of every field kind and of generated messages"], trusted=[T_SLICE, T_UTF8, T_CORPUS])

prop("P10", "A message read from bytes is written back as the same bytes",
     "Writing a message gives its fields one after the other in declaration order, in the declared byte order, and reading these bytes gives the same message whatever follows them. A message which was read is written as exactly the bytes it was read from (presence flags being written as 0 or 1).",
     ["inputs"], "every message of every kind of field (numbers, structures, strings, arrays, lists, optional, nested messages, unions, payloads), of any size, both byte orders",
     "tests write and read back a few constant messages",
     [CP + "gen/rust/message.write.template", CP + "gen/rust/message.from_slice.template", RT + "message/util/common.rs", RT + "message/util/list_base.rs", RT + "message/util/string.rs"],
     [("message writers", CP + "gen/base/message_write.rs"), ("message readers", CP + "gen/base/message_from_slice.rs")],
     [msg(["encode"], ["plain_", "text1_", "text2_", "text2b_", "text4_", "bounded_nul", "arr_", "arr2_", "wrap_", "wrapopt_", "pay_", "lst_", "u1_"], "messages of any size; bounded where marked", min_harnesses=26),
      msg(["encode"], ["u2_", "u3_", "u4_", "u5_", "bounded_lstmid", "bounded_in2"], "messages of any size; bounded where marked", name="more", thorough_only=True)],
     ["WriteTo::write_to and FromSlice::from_slice of generated messages"], trusted=[T_SLICE, T_UTF8, T_WRITE, T_CORPUS])

prop("P11", "Truncated messages are rejected and trailing bytes are ignored",
     "Reading a message succeeds exactly when the input starts with a complete and valid encoding of it, and the reported size is the size of that encoding. Cutting the encoding anywhere is reported as a truncation, and bytes after the encoding change neither the value nor the size.",
     ["inputs"], "every input and every cut point; messages mixing all kinds of fields, both byte orders",
     "no test decodes a truncated input",
     [CP + "gen/rust/message.from_slice.template", RT + "message/util/common.rs", RT + "message/util/string.rs", RT + "message/util/array.rs"],
     [("size checks", RT + "message/util/"), ("message readers", CP + "gen/rust/message.from_slice.template")],
     [rt("real_text", ["strings::bounded_real_"], "inputs of at most 3 and 6 bytes, with the real validation of text", min_harnesses=2, harness_thorough=["strings::bounded_long_real_text"]),
      rt("structures_and_values", ["values::u", "marrays::"], "inputs of any length", min_harnesses=20),
      msg(["decode"], ["plain_", "text1_", "text2_", "text4_", "bounded_nul", "arr_", "arr2_", "wrap_", "wrapopt_", "pay_", "lst_", "u1_", "u2_"], "inputs of any length; bounded where marked", min_harnesses=26)],
     ["FromSlice::from_slice of generated messages"], trusted=[T_SLICE, T_UTF8, T_CORPUS],
     explanation="the contract compares with a reference reader for which both statements are immediate")

prop("P12", "Lists and arrays in messages hold exactly their items, in order",
     "A list or array in a message is read as the number of items of its length prefix, and iterating gives these items in order and then stops, also after an invalid item. An array is only accepted when all of its items are in the input, whatever the length prefix says, and writing gives back the prefix and the items.",
     ["inputs"], "every input; every length prefix of 8 to 64 bits (arrays, lists at the end of a message, iteration step: any size; lists of messages read in full: bounded inputs)",
     "tests build lists of three items",
     [RT + "message/util/list.rs", RT + "message/util/array.rs", RT + "message/util/list_base.rs", RT + "message/macros.rs"],
     [("lists", RT + "message/util/list.rs"), ("arrays", RT + "message/util/array.rs")],
     [rt("arrays", ["marrays::"], "any number of items; iteration bounded", min_harnesses=15),
      rt("lists", ["opt::list_step", "opt::u", "opt::write_item", "opt::fresh", "opt::to_ref", "lists::bounded_decode", "lists::bounded_unsized"], "any input; bounded where marked", min_harnesses=15, harness_thorough=["lists::bounded_long_decode", "lists::bounded_round_trip"]),
      msg(["decode"], ["arr_", "arr2_", "lst_"], "any input; bounded where marked", min_harnesses=6),
      msg(["decode", "encode"], ["bounded_lstmid", "bounded_in2"], "inputs of at most 8 bytes", name="lists_of_messages", thorough_only=True),
      verus("any_items", [], 20)],
     ["List::from_slice", "list::Iter::next", "list::Unsized::from_slice", "Array::from_slice", "Array::from_parts", "Array::get", "Array::get_mut", "Array::iter", "write_item", "WriteTo of lists"],
     trusted=[T_SLICE, T_CORPUS], assumptions=["the decoder of the items is any decoder which conforms to the contract of decoders"])

prop("P13", "Strings in messages are exact, valid text",
     "A string is read as exactly the bytes announced by its length prefix, or up to the first terminator, and only when they are all there and are valid text; it is written so that reading gives the same string. Anything else is an error which says whether the input is truncated or not valid text.",
     ["inputs"], "every input; length prefixes of 8 to 64 bits in both byte orders for inputs of any length; terminated strings in inputs of at most 24 bytes (writing: any length)",
     "tests use one short ASCII string per kind",
     [RT + "message/util/string.rs"], [("length prefixed strings", RT + "message/util/string.rs: VarcharString"), ("terminated strings", RT + "message/util/string.rs: NullTerminatedString")],
     [rt("strings", ["strings::u", "strings::nul_encode", "strings::bounded_nul_decode", "strings::bounded_real_"], "any length; reading terminated strings bounded to 8 bytes (thorough: 24); the real validation of text: 3 and 6 bytes", min_harnesses=20, harness_thorough=["strings::bounded_long_nul", "strings::bounded_long_real_text"]),
      msg(["decode"], ["text1_", "text2_", "text2b_", "text4_", "bounded_nul"], "any length; bounded where marked", min_harnesses=10)],
     ["VarcharString::from_slice", "VarcharString::write_to", "NullTerminatedString::from_slice", "NullTerminatedString::write_to"], trusted=[T_SLICE, T_UTF8, T_WRITE, T_CORPUS])

prop("P14", "Unions follow their discriminant when read and when written",
     "A union is read as the case whose number is the current value of its discriminant field, and an unknown number is an error carrying it. Writing a union under a discriminant which is not the one of its case is rejected before anything of it is written, and setting the discriminant from a union value makes the two agree without changing anything else.",
     ["inputs"], "every discriminant value and content; discriminants of 3, 5 and 16 bits, signed, unsigned and enumerated, nested or not, both byte orders",
     "tests read three declared cases; undeclared or mismatching discriminants are not tried",
     [CP + "compiler/union.rs", CP + "gen/rust/union.rs", CP + "gen/rust/union.template"], [("cases", CP + "compiler/union.rs: UnionField::from_model"), ("union code", CP + "gen/rust/union.template")],
     [msg(["decode"], ["u1_", "u2_", "u3_", "u4_", "u5_"], "any input", min_harnesses=10),
      msg([None], ["value::", "deep_value::", "signed_value::", "native_value::", "wide_value::", "unit_value::", "unit_decode"], "all discriminants and contents", name="unions", min_harnesses=26)],
     ["from_slice, write_to, set_discriminant, is_X, as_X of generated unions"], trusted=[T_SLICE, T_UTF8, T_CORPUS])

prop("P15", "Reading with offsets agrees with plain reading",
     "Reading a message together with the offsets of its fields accepts the same inputs and gives the same values, sizes and errors as reading it alone. The offsets of a field delimit exactly its encoding, fields are contiguous, and offsets of nested messages are relative to them.",
     ["inputs"], "every input of any length, for messages with every kind of field, both byte orders",
     "one test compares the offsets of one message",
     [CP + "gen/rust/message.offsets.template", CP + "gen/rust/message_offsets.rs", CP + "gen/base/message_from_slice.rs", RT + "message/util/common.rs"],
     [("offset readers", CP + "gen/rust/message.offsets.template"), ("optional fields", RT + "message/util/common.rs: Optional")],
     [msg(["offsets"], ["plain_", "text1_", "text2_", "bounded_nul", "arr_", "arr2_", "wrap_", "wrapopt_", "pay_", "lst_", "u1_", "u2_", "u5_"], "any length; bounded where marked", min_harnesses=26),
      rt("optional", ["opt::optional_offsets", "opt::optional_decode"], "any content decoder", min_harnesses=2),
      msg(["offsets"], ["bounded_lstmid", "bounded_in2", "u3_", "u4_", "text2b_", "text4_"], "bounded where marked", name="more", thorough_only=True),
      verus("any_content", ["Optional::from_slice", "Optional::from_slice_with_offsets", "IterOffsets::next", "Message::", "whole"], 4)],
     ["FromSliceWithOffsets::from_slice_with_offsets of generated messages and Optional"], trusted=[T_SLICE, T_UTF8, T_CORPUS])

prop("P16", "The computed size of a message is the number of bytes written",
     "The size computed for a value without writing it is exactly the number of bytes which writing it produces, and computing it fails exactly when writing fails. It does not depend on how the bytes are handed over piecewise.",
     ["inputs"], "every sequence of writes of any size",
     "no test calls it",
     [RT + "message/util/size.rs"], [("counting writer", RT + "message/util/size.rs")],
     [rt("size", ["opt::size", "opt::size_pieces"], "any content, any split", min_harnesses=2)],
     ["size_of", "the counting writer"], trusted=[T_WRITE])

prop("P17", "Lengths which do not fit their prefix are rejected, never truncated",
     "Writing a string, list or array whose length does not fit the length prefix of its field is an error which carries the length, and nothing is written for the field. Every length which fits is written with this very length.",
     ["inputs"], "every length up to 2^40, prefixes of 8, 16, 32 and 64 bits, both byte orders",
     "no test writes anything longer than a few bytes",
     [RT + "message/util/string.rs", RT + "message/util/list_base.rs"], [("prefix check", RT + "message/util/string.rs, " + RT + "message/util/list_base.rs")],
     [rt("prefixes", ["strings::u8_le::encode", "strings::u16_le::encode", "strings::u32_le::encode", "strings::u64_le::encode", "strings::u8_be::encode", "strings::u16_be::encode", "strings::u32_be::encode", "strings::u64_be::encode",
                      "opt::u8_le::encode", "opt::u16_le::encode", "opt::u32_le::encode", "opt::u64_le::encode", "opt::u8_be::encode", "opt::u16_be::encode", "opt::u32_be::encode", "opt::u64_be::encode"], "any length", min_harnesses=16),
      msg([None], ["too_long"], "any length", min_harnesses=10)],
     ["VarcharString::write_to", "WriteTo of lists and arrays"], trusted=[T_SLICE, T_WRITE, T_CORPUS])

prop("P18", "Structure fields are placed as declared, or the structure is rejected",
     "A field is accepted exactly when it can be laid out: 1 to 64 bits; at least one item, and several items only of whole bytes starting on a whole byte; a nested structure only if it is declared and starts on a whole byte; an end which the address space can hold; a view only on the kind of number it applies to (floats of other widths than 32 and 64 bits only with a view). It is then placed at the next free bit, takes its items times its bits, and is held in the smallest native type of its kind. Everything else is reported as an error; no declaration makes the compiler panic.",
     ["configurations"], "every width, position and number of items (machine numbers), every kind of field and view, nested structures of every size, both byte orders",
     "the tests compile a dozen correct schemas; declarations at the limits and wrong ones are not tried",
     [CP + "compiler/structure.rs"], [("fields", CP + "compiler/structure.rs: Field::from_model, FieldView::from_model"), ("locations", CP + "compiler/structure.rs: Location::from_model"), ("native types", CP + "compiler/structure.rs: FixedFieldType::from_model"), ("structures", CP + "compiler/structure.rs: Structure::from_model")],
     [comp("fields", ["layout::"], "all widths, offsets, numbers of items, sizes of nested structures", min_harnesses=23),
      comp("structures", ["whole::bounded_structure"], "structures of 3 fields of any widths, given the contract of fields")],
     ["structure::Field::from_model", "structure::FieldView::from_model", "structure::Location::from_model", "structure::FixedFieldType::from_model", "structure::Structure::from_model (bounded)"],
     trusted=[T_COMPILER], hook="private functions of compiler/src/compiler/structure.rs, and the model of schemas")

prop("P19", "Message layouts hold what they announce, or the message is rejected",
     "The prefix of a string or a list is the smallest unsigned type which can hold the declared maximum length. An item whose structure is one plain number of a native width is that number, any other item stays a structure or message. A message which extends to the end of its input (it has a payload, directly, in its last item or in a case of its last union) is accepted as the last field only and never as the item of a list, and nothing of variable size follows a list of messages. A union is read under a field declared before it, which is of the structure of its discriminant. References to types which are not declared are errors.",
     ["configurations"], "every maximum length, every shape of the structure of an item, every combination of variable and fixed sizes of the fields; whole messages of 3 fields",
     "the tests compile a dozen correct schemas; prefixes are 8 bits wide in most, and no schema is wrong",
     [CP + "compiler/message.rs", CP + "compiler/structure.rs"], [("fields of messages", CP + "compiler/message.rs: Field::from_model"), ("prefixes", CP + "compiler/structure.rs: FixedFieldType::from_max_value"), ("order of fields", CP + "compiler/message.rs: Message::from_model, has_payload")],
     [comp("fields", ["messages::", "layout::max_value"], "all maximum lengths, all sizes of items", min_harnesses=20),
      comp("messages", ["whole::bounded_message"], "messages of 3 fields, given the contract of fields")],
     ["message::Field::from_model", "message::FieldType::has_payload", "message::Message::from_model (bounded)", "structure::FixedFieldType::from_max_value"],
     trusted=[T_COMPILER], hook="private functions of compiler/src/compiler/message.rs, and the model of schemas")

prop("P20", "A union case is a number its discriminant can hold, or the union is rejected",
     "The number of a union case is the declared one: for enumerated discriminants the number of the named variant, for signed ones the bits of the number in two's complement, otherwise the number itself. A case whose number the bits of the discriminant cannot hold, which is not a number, or which names no variant is reported as an error, as are discriminants which are floats and payload types which are not declared.",
     ["configurations"], "every width of the discriminant, every kind and view, every number of a variant; case texts of 1 and 2 characters (thorough: up to 6)",
     "the tests compile two unions with correct cases",
     [CP + "compiler/union.rs"], [("cases", CP + "compiler/union.rs: UnionField::from_model")],
     [comp("cases", ["unions::u"], "all widths, all numbers of variants; texts of numbers bounded to 2 characters", min_harnesses=10, harness_thorough=["unions::long"])],
     ["union::UnionField::from_model"], trusted=[T_COMPILER], hook="the model of schemas")

prop("P23", "A failing output is always reported and never corrupts what was written",
     "When the output fails after any number of bytes, writing reports an input/output error, and the bytes accepted before the failure are a prefix of the encoding. When the output accepts everything, writing a valid message succeeds, however few bytes the output takes at a time.",
     ["fault_sequences", "inputs"], "a failure after every possible number of bytes, for messages of every kind and size",
     "tests write to memory, which never fails",
     [RT + "message/util/common.rs", RT + "message/util/string.rs", RT + "message/util/list_base.rs", CP + "gen/rust/message.write.template", CP + "gen/rust/union.template"],
     [("error propagation", RT + "message/util/"), ("message writers", CP + "gen/rust/message.write.template")],
     [rt("fields", ["::faults", "strings::nul_encode", "strings::u8_le::encode", "strings::u32_be::encode", "opt::optional_encode", "opt::buffer_encode", "opt::write_item", "opt::u8_le::encode", "opt::u16_be::encode"], "any content, any failure point", min_harnesses=25),
      msg(["encode"], ["plain_", "text1_", "arr_", "arr2_", "wrapopt_", "pay_", "u1_", "u5_"], "any message, any failure point", min_harnesses=16)],
     ["WriteTo::write_to of every field kind and of generated messages"], trusted=[T_SLICE, T_UTF8, T_WRITE, T_CORPUS])

HOOK_COMMITS = ["4f045fa"]

NOT_APPLICABLE = {
    "P21": dict(
        title="The Rust generated for every accepted schema compiles",
        statement="Whenever the compiler accepts a schema, the Rust text it writes is a program which rustc accepts against the runtime crate.",
        over=["configurations"], quant="every schema which the compiler accepts",
        why="the tests compile a dozen schemas",
        files=[CP + "gen/"], mech=[("templates", CP + "gen/rust/*.template"), ("renderer", CP + "gen/template.rs")],
        reason="The postcondition would be 'rustc accepts this text': no contract language within reach expresses the grammar and type system of Rust, and the generator is a string renderer driven by template files. The corpora of P03 to P17 are compiled on every run, which is testing and not counted."),
    "P22": dict(
        title="The Swift generated for a schema decodes the same bytes as the Rust",
        statement="The Swift code written for a schema reads and writes the same fields at the same bits as the Rust code written for it.",
        over=["configurations", "inputs"], quant="every schema and every content",
        why="no test looks at the Swift output",
        files=[CP + "gen/swift/"], mech=[("Swift generator", CP + "gen/swift/structure.rs")],
        reason="There is no Swift compiler and no verifier for Swift in the sandbox, and the Swift generator is unfinished (it writes initialisers of structures only)."),
}
