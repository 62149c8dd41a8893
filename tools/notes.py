"""How each property is decided, by which oracle and at what cost (quick tier, 8 cores, builds included)."""

NOTES = {
    "L01": ("making a `Length` of a symbolic byte count, encoding it, parsing it back with arbitrary octets behind it.",
            "`spec::make_length`, written from X.690 8.1.3.", "10 s."),
    "L02": ("`Length::parse` on symbolic octets; comparing two symbolic lengths.",
            "`spec::length`: the canonical lengths and the order of the defects.", "8 s."),
    "I01": ("`Id::new` on symbolic class, flag and 128-bit number; every accessor on the result.",
            "`spec::make_id`, base-128 groups written from X.690 8.1.2.", "10 s."),
    "I02": ("changing one part of a symbolic identifier, chains of three changes.",
            "a fresh identifier of the kept parts and the new one (`spec::make_id`).", "15 s."),
    "I03": ("`IdRef::parse`, `parse_mut` and `Id::parse` on symbolic octets.",
            "`spec::id` and `spec::number`.", "10 s."),
    "C01": ("`Contents`, `Der` and `Ber` of a symbolic integer of each type.",
            "`spec::make_int` and `spec::make_uint`: strip redundant octets from the big-endian form.", "10 s."),
    "C02": ("`to_integer` of each type on symbolic contents.",
            "`spec::int`: value modulo 2^128 and range by sign and octet count.", "12 s."),
    "C03": ("all conversions, views and writes of `Contents` and `ContentsRef` on symbolic octets.",
            "the plain octets, X.690 8.2 and 11.1 for BOOLEAN.", "8 s."),
    "D01": ("`DerRef::parse` and `parse_mut` on symbolic slices; the slice afterwards is looked at.",
            "`spec::der`.", "9 s."),
    "D02": ("`Der::parse` on a reader that returns a symbolically chosen number of octets per call, fails or is "
            "interrupted once at a symbolically chosen point. Reserved memory is limited by the engine.",
            "`spec::der` on the whole data.", "25 s."),
    "D03": ("every constructor of `Der` on symbolic octets and concrete sizes; taking apart and copying.",
            "`spec::element`.", "9 s."),
    "D04": ("edits of symbolic elements; after each edit the octets are compared.",
            "`spec::element` of the edited contents.", "9 s."),
    "D05": ("writing through each mutable view of symbolic elements inside a larger array.",
            "a copy of the octets with only the intended octets replaced.", "8 s."),
    "B01": ("`BerRef::parse` and `parse_mut` on symbolic slices.",
            "`spec::ber_end`, a recursive parser (the code under test counts levels).", "11 s."),
    "B02": ("as D02, for `Ber::parse`.", "`spec::ber_end` on the whole data.", "35 s."),
    "B03": ("every constructor of `Ber`, as D03.", "`spec::element` and identifier, 0x80, contents.", "10 s."),
    "B04": ("as D04, for definite and indefinite elements.", "`spec::element` and identifier, 0x80, contents.", "10 s."),
    "U01": ("sequences of operations chosen symbolically on `Buffer`; the engine checks every access, the layout given "
            "to the allocator and double releases.", "the same operations on a `Vec<u8>`.", "12 s."),
    "U02": ("as U01; the harness includes `buffer/universal_endian/mod.rs` as a module, since no little-endian build "
            "of the crate contains it.", "the same operations on a `Vec<u8>`.", "12 s."),
    "U03": ("operations on symbolic octets with the n-th allocation refused, for each n; the engine ends a path that "
            "reaches the allocation-error handler and treats every access through the null pointer as a violation. "
            "Replayed natively with an allocator that refuses the same request.",
            "the octets the operation gives when memory suffices.", "15 s."),
    "E01": ("all comparisons that compile between owned and borrowed forms of two symbolic octet strings; hashing into "
            "a recording hasher.", "comparison of the octets.", "9 s."),
    "E02": ("wrapping each kind of error 0 to 3 times; errors of nested deserialization.",
            "the error that was put in.", "8 s."),
    "E03": ("decoding symbolic contents behind a number of good members; the words of the context messages are compared "
            "with the way to the failing part. Only numbers and field names count, the wording is free.",
            "`Place`, a walk over the element that records the way (`e03.rs`).", "31 s."),
    "S01": ("serializing and reading back a symbolic value of each type.", "the `Model` of the type (`model.rs`).",
            "9 s."),
    "S02": ("serializing composites whose members announce symbolically chosen sizes (`Quiet`).",
            "the `Model` encoding and its sizes.", "22 s."),
    "S03": ("the four ways of serializing, into a writer that takes a symbolic number of octets per call and fails at "
            "a symbolic position; values failing in each of their methods.", "the `Model` encoding.", "13 s."),
    "S04": ("`from_der` on symbolic elements for each type.", "`Model::decode`.", "9 s."),
    "S05": ("`from_ber` on symbolic elements for each type.", "`Model::decode`.", "10 s."),
    "S06": ("text and octet strings of symbolic octets, both directions.",
            "`model::utf8`, the table of RFC 3629.", "9 s."),
    "S07": ("lists and ordered sets of symbolic members; decoding of symbolic contents.",
            "`Model` of the container: members decoded one after another.", "25 s."),
    "S08": ("as S07 for maps and hash containers. Hash containers get fixed keys and fixed hash seeds, since symbolic "
            "hashes would make every bucket possible.", "`Model` of the container.", "27 s."),
    "S09": ("rewriting an encoding with a symbolic choice of constructed elements made indefinite, and decoding it.",
            "the value that was encoded.", "15 s."),
    "M01": ("a catalogue of derived structs; the macros run at build time, their output is executed.",
            "`Model` implementations generated by an independent declarative macro (`model_struct!`).", "18 s."),
    "M02": ("a catalogue of derived enums.", "as M01, dispatch on identifier octets written out by hand.", "15 s."),
    "M03": ("34 declarations with identifier attributes, as structs and as variants of one enum.",
            "identifier octets written out by hand.", "15 s."),
    "M04": ("declarations with skipped fields in each position and with each marker.", "hand-written models.", "12 s."),
    "M05": ("declarations with each conversion attribute at type and field level.",
            "hand-written models; failing conversions carry a marker error.", "13 s."),
    "M06": ("transparent declarations against their field.", "the field's own `Model`.", "10 s."),
    "T01": ("decoding several values in a row from one slice or reader.", "`spec::ber_end` and `Model::decode`.",
            "24 s."),
    "T02": ("parsing symbolic input into many types; the engine looks for panics, memory errors, large allocations and "
            "memory not released.", "none needed for the first part; DER and BER results are compared.", "25 s."),
    "T03": ("parsing symbolic elements into many types and writing what was read.",
            "none: the octets that were read, and the second writing against the first.", "55 s."),
}
