"""What each check runs: the entry points in harness/, their bounds and the situations they must reach."""

CATALOG = {}


def prop(pid, *entries, **kw):
    CATALOG[pid] = dict(entries=list(entries), **kw)


def e(name, bound, covers=(), **kw):
    return dict(name=name, bound=bound, covers=list(covers), **kw)


prop("L01",
     e("h_l01_definite", "all 2^64 byte counts, 0 to 3 arbitrary octets behind the length",
       ["short form", "eight length octets"]),
     e("h_l01_indefinite", "0 to 3 arbitrary octets behind the length", ["indefinite"]))

prop("L02",
     e("h_l02_parse", "every octet string of 0 to 24 octets",
       ["definite", "indefinite", "truncated", "redundant", "overflow"]),
     e("h_l02_compare", "every pair of lengths", ["both definite", "indefinite"]))

prop("I01",
     e("h_i01_new", "4 classes, 2 flags, all 2^128 numbers", ["short form", "one group", "nineteen groups"]),
     e("h_i01_number_types", "all values of each number type"),
     e("h_i01_constants", "the eleven predefined identifiers", ["all"]))

prop("I02",
     e("h_i02_number", "4 combinations of class and flag, all old and new numbers below 2^128", ["grew", "shrank"]),
     e("h_i02_chain", "3 changes in a row; numbers up to 65635", ["done"]),
     e("h_i02_borrowed", "4 classes, 2 flags, all 2^128 numbers", ["done"]))

prop("I03",
     e("h_i03_slice", "every octet string of 0 to 28 octets", ["short", "longest", "redundant", "unterminated"]),
     e("h_i03_mut", "every octet string of 0 to 28 octets", ["accepted", "refused"]),
     e("h_i03_reader", "every octet string of 0 to 28 octets", ["accepted", "refused", "longest"]),
     e("h_i03_number", "every identifier of 1 to 28 octets",
       ["largest size with a number", "smallest size without a number"]),
     e("h_i03_long", "identifiers of 29 to 300 octets, 5 octets arbitrary", ["longest", "refused"]))

INTS = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"]

prop("C01", *[e("h_c01_" + t, "all values of " + t, ["one octet", "longest"]) for t in INTS])

prop("C02", *[e("h_c02_" + t, "all contents of 0 to 18 octets", ["accepted", "overflow", "redundant", "empty"])
              for t in INTS],
     e("h_c02_long", "all contents of 20 sizes from 19 to 300 octets for 12 types", ["overflow", "redundant"]))

prop("C03",
     e("h_c03_bool", "all contents of 0 to 4 octets", ["empty", "too long", "DER accepted", "DER refused"]),
     e("h_c03_bool_long", "all contents of 9 sizes from 5 to 513 octets", ["too long"]),
     e("h_c03_octets", "all contents of 13 sizes from 0 to 300 octets", ["empty", "heap"]),
     e("h_c03_from", "all ASCII text of 8 sizes from 0 to 257 octets", ["done"]),
     e("h_c03_write", "all contents of 1, 4, 23, 24 and 26 octets, every position, every octet", ["done"]))

prop("D01",
     e("h_d01_slice", "every slice of 0 to 16 octets",
       ["accepted", "octets left", "long identifier", "unterminated", "redundant", "overflow",
        "indefinite"]),
     e("h_d01_mut", "every mutable slice of 0 to 16 octets", ["accepted", "refused"]),
     e("h_d01_long", "contents of 127 to 129, 255 to 257, 65535 and 65536 octets, 2 octets missing to 1 octet left",
       ["accepted", "unterminated", "octets left", "refused", "long length"]))

prop("D02",
     e("h_d02_pieces", "every input of 0 to 10 octets, every way of cutting it",
       ["accepted", "refused"]),
     e("h_d02_fail", "every input of 0 to 8 octets, every way of cutting it, a failure after any octet",
       ["accepted", "refused", "I/O error"]),
     e("h_d02_interrupted", "every input of 0 to 6 octets, every way of cutting it, one interruption at any read",
       ["accepted", "refused", "interrupted"]),
     e("h_d02_long", "contents of 20 to 23, 127, 128, 255, 256 and 600 octets, cut once at 8 places",
       ["accepted"]),
     e("h_d02_huge", "9 sizes from 4095 to 70000 octets, 3 octets arbitrary, cut once at 6 places", ["accepted"]),
     e("h_d02_slice_reader", "every input of 0 to 10 octets, slice and cursor as readers", ["accepted", "refused"]))

prop("D03",
     e("h_d03_build", "identifiers of 1 to 4 octets, contents of 17 sizes from 0 to 300 octets", ["done"]),
     e("h_d03_iterator", "identifiers of 1 to 4 octets, contents of 17 sizes from 0 to 300 octets in 0 to 3 chunks",
       ["done"]),
     e("h_d03_primitive", "contents of 17 sizes from 0 to 300 octets", ["done"]),
     e("h_d03_chunks", "4 to 256 octets in chunks of 1 to 3, empty ones between or not", ["done"]),
     e("h_d03_two_octets", "contents of 65535 and 65536 octets, 3 of them arbitrary", ["done"]))

prop("D04",
     e("h_d04_edit", "identifiers of 1 to 3 octets, 14 starting sizes up to 256, pushes, 14 extensions and 15 truncations",
       ["push", "extend", "shortened", "unchanged"]),
     e("h_d04_sequence", "5 edits out of 6 kinds from 3 starting sizes", ["done"]),
     e("h_d04_large", "edits from 65534 to 65536 octets of contents, 4 octets arbitrary", ["done"]),
     e("h_d04_jump", "8 sizes up to 256 extended to 4 sizes up to 70000 octets and back, 4 octets arbitrary", ["done"]))

CH = ["class", "flag", "contents", "all contents"]
prop("D05",
     e("h_d05_der_borrowed", "every element in 12 octets, every change", CH),
     e("h_d05_ber_borrowed", "every element in 9 octets, every change", CH + ["indefinite"]),
     e("h_d05_der_owned", "identifiers of 1 to 3 octets, contents of 0 to 12 octets, inline and heap", CH),
     e("h_d05_ber_owned", "identifiers of 1 to 3 octets, contents of 0 to 12 octets, inline and heap", CH),
     e("h_d05_long", "identifiers of 1 and 3 octets, contents of 127 to 129, 255 to 257, 65535 and 65536 octets, "
       "3 octets arbitrary", ["done"]))

prop("B01",
     e("h_b01_slice", "every slice of 0 to 12 octets",
       ["definite", "indefinite", "unterminated", "redundant", "overflow"]),
     e("h_b01_mut", "every mutable slice of 0 to 11 octets", ["definite", "indefinite", "refused"]),
     e("h_b01_nested", "6 pieces out of 5 kinds inside an indefinite element",
       ["indefinite", "unterminated"]),
     e("h_b01_wide", "31 to 300 elements and any 2 octets inside an indefinite element", ["indefinite"]),
     e("h_b01_deep", "1 to 300 levels of nesting", ["whole", "cut"]),
     e("h_b01_deeper", "32768 and 65536 levels of nesting", ["whole", "cut"]),
     e("h_b01_long", "contents of 127 to 129, 255 to 257, 65535 and 65536 octets, 2 octets missing to 1 octet left",
       ["definite", "indefinite", "refused"]))

prop("B02",
     e("h_b02_pieces", "every input of 0 to 9 octets, every way of cutting it",
       ["accepted", "refused", "indefinite"]),
     e("h_b02_fail", "every input of 0 to 7 octets, every way of cutting it, a failure after any octet",
       ["accepted", "refused", "I/O error"]),
     e("h_b02_interrupted", "every input of 0 to 6 octets, every way of cutting it, one interruption at any read",
       ["accepted", "refused", "interrupted"]),
     e("h_b02_long", "contents of 17 to 23, 127, 128, 255, 256 and 600 octets, cut once at 9 places",
       ["accepted", "indefinite"]),
     e("h_b02_huge", "9 sizes from 4095 to 70000 octets, 3 octets arbitrary, cut once at 7 places", ["accepted", "indefinite"]),
     e("h_b02_nested", "5 pieces out of 5 kinds inside an indefinite element", ["accepted", "refused"]),
     e("h_b02_wide", "32, 128 and 256 elements and any 2 octets inside an indefinite element", ["accepted", "refused"]),
     e("h_b02_slice_reader", "every input of 0 to 10 octets, slice as reader",
       ["accepted", "refused", "indefinite"]),
     e("h_b02_deep", "1 to 300 levels of nesting", ["whole", "cut"]))

prop("B03",
     e("h_b03_definite", "identifiers of 1 to 4 octets, contents of 17 sizes from 0 to 300 octets", ["done"]),
     e("h_b03_indefinite", "identifiers of 1 to 4 octets, contents of 17 sizes from 0 to 300 octets", ["done"]),
     e("h_b03_iterator", "identifiers of 1 to 4 octets, contents of 17 sizes from 0 to 300 octets in 0 to 3 chunks",
       ["done"]),
     e("h_b03_primitive", "contents of 17 sizes from 0 to 300 octets", ["done"]),
     e("h_b03_eoc", "the constant", ["done"]),
     e("h_b03_chunks", "4 to 256 octets in chunks of 1 to 3, empty ones between or not", ["done"]),
     e("h_b03_two_octets", "contents of 65535 and 65536 octets, 3 of them arbitrary", ["done"]))

prop("B04",
     e("h_b04_edit", "definite and indefinite, identifiers of 1 to 3 octets, 14 starting sizes up to 256, pushes, "
       "14 extensions and 15 truncations", ["push", "extend", "shortened", "unchanged"]),
     e("h_b04_sequence", "definite and indefinite, 5 edits out of 6 kinds from 3 starting sizes", ["done"]),
     e("h_b04_large", "edits from 65534 to 65536 octets of contents, 4 octets arbitrary", ["done"]),
     e("h_b04_jump", "8 sizes up to 256 extended to 4 sizes up to 70000 octets and back, 4 octets arbitrary", ["done"]))

UOPS = ["push", "extend", "reserve", "write", "shorten", "clone", "vector", "move"]
prop("U01",
     e("h_u01_sequence", "20 starting points, 2 operations out of 13 kinds, sizes around 23, all octets", UOPS),
     e("h_u01_longer", "4 starting points, 3 operations out of 13 kinds, sizes around 23, all octets", UOPS),
     e("h_u01_deep", "20 starting points, 3 operations out of 13 kinds, sizes around 23, all octets", UOPS,
       tier="thorough"),
     e("h_u01_sizes", "sizes 0 to 41, 128, 255 to 257 and 300, octet by octet", ["done"]),
     e("h_u01_forms", "sizes 0, 1, 22 to 24 and 30", ["done"]),
     e("h_u01_alive", "capacities of 108 to 70008 octets", ["done"]))

prop("U02",
     e("h_u02_sequence", "20 starting points, 2 operations out of 13 kinds, sizes around 16, all octets", UOPS),
     e("h_u02_longer", "4 starting points, 3 operations out of 13 kinds, sizes around 16, all octets", UOPS),
     e("h_u02_deep", "20 starting points, 3 operations out of 13 kinds, sizes around 16, all octets", UOPS,
       tier="thorough"),
     e("h_u02_sizes", "sizes 0 to 41, 128, 255 to 257 and 300, octet by octet", ["done"]),
     e("h_u02_alive", "capacities of 108 to 70008 octets", ["done"]),
     assumptions=["the storage for big-endian machines is compiled for and run on x86-64"])

EQ = ["equal", "different"]
OOM = ["enough memory", "out of memory"]
prop("U03",
     e("h_u03_element", "10 ways of making an element of 0 to 40 arbitrary octets; any of the first 3 allocations fails", OOM),
     e("h_u03_change", "4 ways of changing an element of 0 to 22 octets by 0 to 26; any of the first 3 allocations fails", OOM),
     e("h_u03_read", "6 parsers and readers, 0 to 40 octets of contents; any of the first 8 allocations fails", OOM),
     e("h_u03_values", "numbers of 16 octets and texts of 39; any of the first 2 allocations fails", OOM),
     e("h_u03_serialize", "a struct, 2 maps and an octet string as DER and BER; any of the first 12 allocations fails", OOM),
     e("h_u03_deserialize", "a struct, a list and 2 maps from DER and BER; any of the first 12 allocations fails", OOM),
     e("h_u03_universal", "the storage of big-endian machines through 4 operations; any of the first 4 allocations fails", OOM))

prop("E01",
     e("h_e01_id", "all pairs of identifiers of 1 to 9 octets", EQ),
     e("h_e01_contents", "all pairs of contents of 0 to 9 octets", EQ),
     e("h_e01_der", "all pairs of octet strings of 0 to 9 octets", EQ),
     e("h_e01_ber", "all pairs of octet strings of 0 to 9 octets", EQ),
     e("h_e01_buffer", "all pairs of octet strings of 0 to 9 octets", ["done"]),
     e("h_e01_inline", "22 to 26 octets, one octet different", EQ),
     e("h_e01_long", "all pairs of 9 sizes from 7 to 263 octets, one octet different", EQ),
     e("h_e01_huge", "all pairs of 65535 to 65537 octets, one octet different", EQ))

prop("E02",
     e("h_e02_root", "11 kinds of error, 0 to 3 levels of context", ["plain", "wrapped"]),
     e("h_e02_equal", "all pairs of 11 kinds with 0 or 1 level of context", ["equal", "different"]),
     e("h_e02_message", "11 kinds of error, 0 to 3 levels of context", ["plain", "wrapped"]),
     e("h_e02_serde", "every SEQUENCE with 4 octets of contents", ["accepted", "refused"]))

P = ["accepted", "a part"]
prop("E03",
     e("h_e03_list", "4 sequence types of 0 to 3 good elements and up to 4 arbitrary octets; DER, BER, indefinite BER", P),
     e("h_e03_many", "9 to 1000 good elements and up to 3 arbitrary octets", P),
     e("h_e03_map", "BTreeMap<u8, bool> of 0 to 2 good pairs and up to 4 arbitrary octets, a pair of up to 6 arbitrary octets, or a value of up to 4", P),
     e("h_e03_hash", "HashMap with an arbitrary last value, HashSet with an arbitrary last element, after 0 to 2 good ones", P),
     e("h_e03_nested", "Vec<Vec<u8>>: 0 to 2 good lists, then 0 to 2 good elements and up to 4 arbitrary octets", P),
     e("h_e03_fields", "a struct of 4 fields, one skipped, one converted: 0 to 2 good fields and up to 4 arbitrary octets", P + ["as a whole"]),
     e("h_e03_tuple", "a tuple struct of 3 fields, the last a list", P + ["as a whole"]),
     e("h_e03_variant", "3 variants and an unknown one: a good field or none, and up to 4 arbitrary octets", P + ["as a whole"]),
     e("h_e03_transparent", "2 transparent structs, one converted", P),
     e("h_e03_deep", "an enum holding a list of structs: 0 to 2 good structs, then one with up to 2 good fields and up to 3 arbitrary octets", P))

WR = ["written", "read back"]
AR = ["accepted", "refused"]
INTS = ["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "i128", "u128", "isize", "usize"]
prop("S01", *[e("h_s01_" + t, "all values", WR) for t in ["bool"] + INTS])

prop("S02",
     e("h_s02_list", "0 to 3 elements of any u16, four kinds of list", ["written"]),
     e("h_s02_quiet", "2 elements with any sizes announced or not", ["written"]),
     e("h_s02_ordered_map", "0 to 2 entries, any values, any sizes announced or not", ["written"]),
     e("h_s02_hash_map", "0 to 2 entries, any values, any sizes announced or not", ["written"]),
     e("h_s02_hash_set", "0 to 3 fixed elements, any sizes announced or not", ["written"]),
     e("h_s02_struct", "any field values, any sizes announced or not", ["written"]),
     e("h_s02_enum", "any field values, any sizes announced or not, three variants", ["written"]),
     e("h_s02_long", "texts of 120 to 129 and 249 to 257 octets in five containers", ["written"]),
     e("h_s02_huge", "octet strings of 65525 to 65536 octets in four containers", ["written"]),
     e("h_s02_nested", "lists and maps in lists and maps, any values", ["written"]),
     e("h_s02_many", "15 to 86 members of seven kinds", ["written"]),
     e("h_s02_bare", "types that implement no announcement, in five places, any values", ["written"]))

WAYS = ["written", "writer failed"]
prop("S03",
     e("h_s03_int", "any i32, bool, 4-octet text; any sizes of writes; failure at any octet", WAYS),
     e("h_s03_quiet", "any u16 with any sizes announced; any sizes of writes; failure at any octet",
       WAYS),
     e("h_s03_list", "2 elements; failure at any octet", WAYS),
     e("h_s03_map", "1 entry; failure at any octet", WAYS),
     e("h_s03_struct", "a struct and an enum; failure at any octet", WAYS),
     e("h_s03_slow", "a list, a map and an enum with one member; any sizes of writes; failure at any octet",
       WAYS),
     e("h_s03_value", "a member failing in any of its methods in four containers", ["value failed"]),
     e("h_s03_long", "texts of 126 to 129 octets; failure at any octet", WAYS),
     e("h_s03_long_slow", "texts of 120 to 256 octets in four containers; at most 1 to 4 octets per write",
       ["written"]),
     e("h_s03_huge", "texts of 8192 to 70000 octets; at most 1024 to 65535 octets per write; failure at 3 places", ["written", "writer failed"]))

prop("S04",
     e("h_s04_bool", "any identifier octet, contents of 0 to 4 octets", AR),
     *[e("h_s04_" + t, "any identifier octet, contents of 0 to 18 octets", AR) for t in INTS],
     e("h_s04_int_id", "every DER element of 6 octets for three types", AR),
     e("h_s04_bool_long", "contents of 5 to 256 octets", ["refused"]),
     e("h_s04_length", "contents of 20 to 256 octets", ["refused"]))

prop("S05",
     e("h_s05_bool", "any identifier octet, contents of 0 to 4 octets", AR),
     *[e("h_s05_" + t, "any identifier octet, contents of 0 to 18 octets", AR) for t in INTS],
     e("h_s05_int_id", "every BER element of 6 octets for three types", AR),
     e("h_s05_bool_long", "contents of 5 to 256 octets", ["refused"]),
     e("h_s05_length", "contents of 20 to 256 octets", ["refused"]),
     e("h_s05_indefinite", "every indefinite element of up to 10 octets for 13 types", ["refused", "indefinite"]),
     e("h_s05_indefinite_text", "every indefinite element of up to 10 octets", ["refused", "indefinite"]),
     e("h_s05_strings", "any identifier octet, contents of 0 to 3 octets", AR),
     e("h_s05_loose_length", "every BER element of 4 octets for 13 types", AR))

prop("S06",
     e("h_s06_text", "every text of 0 to 6 octets", WR),
     e("h_s06_octets", "all octet strings of 0 to 12 octets", WR),
     e("h_s06_decode_text", "all contents of 0 to 7 octets, both identifiers", AR),
     e("h_s06_decode_octets", "all contents of 0 to 12 octets, both identifiers", AR),
     e("h_s06_id", "every element of 2 to 6 octets", AR),
     e("h_s06_long", "20 to 256 octets", WR),
     e("h_s06_decode_long", "7 sizes from 17 to 260 octets, 3 octets in a row arbitrary at 4 places", AR),
     e("h_s06_convert", "all octet strings of 0 to 4 octets", ["text", "no text"]),
     e("h_s06_huge", "65535 to 65537 octets, 2 octets in a row arbitrary at 3 places", AR))

prop("S07",
     e("h_s07_vec", "0 to 3 elements, any i16", WR),
     e("h_s07_list", "0 to 3 elements, any i8", WR),
     e("h_s07_queue", "0 to 3 elements, any u8, any position in the ring buffer", WR),
     e("h_s07_set", "0 to 3 elements, any u8", WR),
     e("h_s07_nested", "lists of lists, octet strings and texts", WR),
     e("h_s07_decode_vec", "all contents of 0 to 9 octets, DER and BER", AR),
     e("h_s07_decode_list", "all contents of 0 to 9 octets, DER and BER", AR),
     e("h_s07_decode_queue", "all contents of 0 to 9 octets, DER and BER", AR),
     e("h_s07_decode_set", "all contents of 0 to 9 octets, DER and BER", AR),
     e("h_s07_decode_nested", "all contents of 0 to 7 octets, DER and BER", AR),
     e("h_s07_any", "every element of 2 to 6 octets, DER and BER", AR + ["indefinite"]),
     e("h_s07_indefinite", "indefinite length, all contents of 0 to 7 octets and the end, DER and BER", AR + ["indefinite"]),
     e("h_s07_many", "41 to 86 elements, any one identifier near the end", WR + AR),
     e("h_s07_many_kinds", "41 to 86 elements in the other 3 kinds, any one identifier or length near the end", WR + AR),
     e("h_s07_more", "vectors of 127 to 1025 elements, one of them and one identifier near the end arbitrary", WR + AR))

prop("S08",
     e("h_s08_ordered", "0 to 3 entries, any u8 keys and values", WR),
     e("h_s08_ordered_keys", "text and boolean keys", WR),
     e("h_s08_hash", "0 to 3 entries, fixed keys, any u16 values", WR + ["any order"]),
     e("h_s08_set", "0 to 3 fixed elements", WR + ["any order"]),
     e("h_s08_decode_ordered", "all contents of 0 to 9 octets, DER and BER", AR),
     e("h_s08_decode_pair", "one pair with all contents of 0 to 8 octets, DER and BER", AR),
     e("h_s08_repeated", "3 pairs with any keys and values", AR[:1]),
     e("h_s08_decode_hash", "2 pairs with fixed keys, any values, any octet but the keys arbitrary", AR),
     e("h_s08_decode_set", "2 fixed elements, any octet but these arbitrary", AR),
     e("h_s08_any", "every element of 2 to 7 octets, DER and BER", AR + ["indefinite"]),
     e("h_s08_indefinite", "indefinite length, all contents of 0 to 8 octets and the end, DER and BER", AR + ["indefinite"]),
     e("h_s08_indefinite_pair", "one pair of indefinite length with all contents of 0 to 7 octets and the end, DER and BER",
       AR),
     e("h_s08_long", "texts of 118 to 128 octets as values", WR),
     e("h_s08_many", "12 to 40 entries in four kinds, one value arbitrary", WR),
     e("h_s08_decode_many", "16 and 32 pairs, one octet of the last 3 but their keys arbitrary, DER and BER", AR),
     e("h_s08_more", "127 to 257 entries in three kinds, one value arbitrary", WR))

FORMS = ["definite", "indefinite"]
prop("S09",
     e("h_s09_list", "0 to 2 elements, any u8, three kinds of list, all forms", FORMS),
     e("h_s09_set", "0 to 2 elements, any u8, all forms", FORMS),
     e("h_s09_ordered_map", "0 to 2 entries, any keys and values, all forms", FORMS),
     e("h_s09_hash_map", "0 to 2 entries, any values, all forms", FORMS),
     e("h_s09_hash_set", "0 to 2 fixed elements, all forms", FORMS),
     e("h_s09_struct", "any field values, all forms", FORMS),
     e("h_s09_enum", "three variants, any field values, all forms", FORMS),
     e("h_s09_nested", "up to 3 levels, any values, all forms", FORMS),
     e("h_s09_zeros", "any octet strings of 0 to 3 octets as members, all forms", FORMS),
     e("h_s09_deep", "5 levels, any values, all forms", FORMS),
     e("h_s09_long", "members of 122 to 256 octets, all forms", FORMS))

prop("M01",
     *[e("h_m01_" + n, b, WR) for n, b in [
         ("named", "any u8 and bool"), ("tuple", "any i16, u8, i16"), ("unit", "unit and empty structs"),
         ("nested", "any values, list of 0 to 2 elements"), ("generic", "two instances, any values"),
         ("many", "four u8 fields, any values"), ("text", "texts of 0 to 252 octets, octet string, map")]],
     *[e("h_m01_decode_" + n, b, AR) for n, b in [
         ("named", "all contents of 0 to 9 octets, DER and BER"),
         ("tuple", "all contents of 0 to 11 octets, DER and BER"),
         ("unit", "all contents of 0 to 4 octets, DER and BER"),
         ("nested", "one octet of an encoding arbitrary, DER and BER"),
         ("generic", "all contents of 0 to 8 octets, DER and BER"),
         ("many", "2 to 5 integers where 4 are expected, DER and BER")]],
     e("h_m01_wide", "twelve fields, any values from 64 to 127", WR),
     e("h_m01_decode_wide", "11 to 13 integers where 12 are expected, DER and BER", AR),
     e("h_m01_names", "any values", WR),
     e("h_m01_params", "any values; all contents of 0 to 6 octets, DER and BER", WR + AR),
     e("h_m01_long", "texts of 65512 to 65520 octets", WR),
     e("h_m01_any", "every element of 2 to 8 octets, DER and BER", AR + ["indefinite"]),
     e("h_m01_indefinite", "all forms of two structs, any values", FORMS),
     e("h_m01_decode_indefinite", "indefinite length, all contents of 0 to 8 octets and the end for three structs, DER and BER",
       AR + ["indefinite"]))

prop("M02",
     e("h_m02_value", "five variants, any values", WR),
     e("h_m02_decode_unit", "all contents of 0 to 5 octets for two variants, DER and BER", AR),
     e("h_m02_decode_a", "all contents of 0 to 9 octets, DER and BER", AR),
     e("h_m02_decode_b", "all contents of 0 to 9 octets, DER and BER", AR),
     e("h_m02_decode_c", "all contents of 0 to 7 octets, DER and BER", AR),
     e("h_m02_long", "texts of 0 to 254 octets in two variants, any values", WR),
     e("h_m02_generic", "three variants, any values", WR),
     e("h_m02_decode_generic", "all contents of 0 to 8 octets under four identifiers, DER and BER", AR),
     e("h_m02_wide", "twelve and four fields, any values from 64 to 127", WR),
     e("h_m02_any", "every element of 2 to 8 octets, DER and BER", AR + ["indefinite"]),
     e("h_m02_id", "every identifier of up to 4 octets, four contents, DER and BER", AR),
     e("h_m02_nested", "enums in enums and lists, any values", WR),
     e("h_m02_indefinite", "all forms, any values", FORMS),
     e("h_m02_decode_indefinite", "indefinite length, all contents of 0 to 8 octets and the end under three identifiers, "
       "DER and BER", AR + ["indefinite"]))

prop("M03",
     e("h_m03_struct", "34 declarations, any u8", WR),
     e("h_m03_decode", "34 declarations, every identifier of up to 5 octets, DER and BER", AR),
     e("h_m03_decode_near", "34 declarations, one identifier octet arbitrary, DER and BER", AR),
     e("h_m03_enum", "an enum of 34 variants, any u8", WR),
     e("h_m03_enum_decode", "an enum of 34 variants, every identifier of up to 5 octets, DER and BER", AR),
     e("h_m03_enum_near", "an enum of 34 variants, one identifier octet arbitrary, DER and BER", AR))

prop("M04",
     *[e("h_m04_" + n, "any field values", ["written"])
       for n in ["skip", "serializing", "deserializing", "tuple", "enum", "all"]],
     *[e("h_m04_decode_" + n, "all contents of 0 to %d octets, DER and BER" % k, AR)
       for n, k in [("skip", 10), ("serializing", 11), ("deserializing", 9), ("tuple", 10), ("enum", 9), ("all", 6)]],
     e("h_m04_long", "texts of 0 to 254 octets", ["written"]),
     e("h_m04_indefinite", "indefinite length, all contents of 0 to 7 octets and the end for four types, DER and BER",
       AR + ["indefinite"]),
     e("h_m04_nested", "any field values", ["written"]))

CF = AR + ["conversion failed"]
prop("M05",
     *[e("h_m05_" + n, "any field values", WR)
       for n in ["from_into", "to_try", "enum", "enum_to", "field", "field_tuple", "variant", "text", "nested", "tagged"]],
     *[e("h_m05_" + n, "converted texts of 0 to 256 octets", WR) for n in ["long", "long_variant", "long_type"]],
     e("h_m05_generic", "0 to 3 elements", WR),
     *[e("h_m05_decode_" + n, "all contents of 0 to %d octets, DER and BER" % k, c)
       for n, k, c in [("from", 7, AR), ("try", 6, CF), ("enum", 6, CF), ("enum_to", 10, AR), ("field", 10, CF),
                       ("tuple", 10, CF), ("variant", 10, CF), ("text", 8, AR), ("generic", 9, AR)]],
     e("h_m05_indefinite", "all forms of four types, any values", FORMS),
     e("h_m05_decode_indefinite", "indefinite length, all contents of 0 to 9 octets and the end for five types, DER and BER",
       CF + ["indefinite"]),
     e("h_m05_decode_tagged", "a field of any 3 octets, then 0 to 7 octets, DER and BER", AR))

prop("M06",
     *[e("h_m06_" + n, b, WR) for n, b in [
         ("int", "any i16"), ("named", "texts of 0 to 128 octets, any skipped values"), ("list", "0 to 2 elements"),
         ("converted", "any values"), ("nested", "any values")]],
     *[e("h_m06_decode_" + n, "every element of 2 to %d octets, DER and BER" % k, AR)
       for n, k in [("int", 8), ("named", 8), ("list", 8), ("converted", 8), ("try", 8)]],
     e("h_m06_quiet", "any values, any sizes announced", ["written"]),
     e("h_m06_apart", "four types whose directions use different fields, identifiers and conversions, any values", ["apart"]),
     e("h_m06_indefinite", "all forms, any value", FORMS))

NE = AR + ["not an element"]
prop("T01",
     e("h_t01_slice", "every input of 0 to 6 octets, three values of three types, DER and BER", NE),
     e("h_t01_slice_long", "every input of 0 to 8 octets, two values of three types, DER and BER", NE, weight=3),
     e("h_t01_slice_deep", "every input of 0 to 9 octets, three values of three types, DER and BER", NE, tier="thorough", weight=9),
     e("h_t01_reader", "every input of 0 to 5 octets, two values of two types, any cuts, DER and BER", NE, weight=3),
     e("h_t01_reader_deep", "every input of 0 to 7 octets, two values of two types, any cuts, DER and BER", NE, tier="thorough", weight=5),
     e("h_t01_stream", "a struct and an element of any identifier, any cuts, DER and BER", AR + ["indefinite"]),
     e("h_t01_values", "five values of four types, any values", ["read back"]),
     e("h_t01_broken", "failure at any octet of the second element", AR),
     e("h_t01_interrupted", "every input of 0 to 4 octets, interrupted once per value", NE + ["interrupted"]),
     e("h_t01_huge", "two octet strings of 127 to 70000 octets between other values, 2 octets arbitrary", ["read back"]))

HO = ["DER", "BER only", "refused"]
prop("T02",
     e("h_t02_elements", "every input of 0 to 9 octets", HO, weight=3),
     e("h_t02_accessors", "every input of 0 to 9 octets", ["DER", "BER"], weight=3),
     e("h_t02_simple", "every input of 0 to 8 octets, six types", HO),
     e("h_t02_lists", "every input of 0 to 8 octets, five types", HO),
     e("h_t02_maps", "every input of 0 to 8 octets, three types", HO),
     e("h_t02_derived", "every input of 0 to 8 octets, three types", HO),
     e("h_t02_huge", "lengths of 1 to 9 octets of any value", ["refused"]),
     e("h_t02_huge_inside", "inner lengths of 1 to 9 octets of any value", ["refused"]),
     e("h_t02_deep", "up to 12 indefinite lengths inside each other", ["refused", "BER only"]),
     e("h_t02_readers", "every input of 0 to 6 octets, three types", ["DER", "refused"]),
     e("h_t02_readers_deep", "every input of 0 to 8 octets, three types", ["DER", "refused"], tier="thorough", weight=3))

CN = ["DER", "BER", "refused"]
prop("T03",
     e("h_t03_integers", "bool and 5 integer types: contents of up to 2 to 18 octets, any length octet", CN),
     e("h_t03_texts", "text of up to 5 and octet strings of up to 6 octets of contents, any length octet", CN),
     e("h_t03_lists", "3 list types: contents of up to 7 octets, any length octet", CN, weight=3),
     e("h_t03_nested", "Vec<Vec<u8>>: contents of up to 7 octets, any length octet", CN, weight=2),
     e("h_t03_derived", "2 derived structs: contents of up to 7 octets", CN),
     e("h_t03_variants", "3 variants and an unknown one: contents of up to 7 octets, any length octet", CN),
     e("h_t03_recursive", "a type that contains itself: up to 3 levels, the innermost of up to 5 arbitrary octets", CN),
     e("h_t03_ordered", "BTreeSet<u8> and BTreeMap<u8, bool>: contents of up to 7 octets", CN),
     e("h_t03_loose", "3 types, every mixture of definite and indefinite lengths", ["BER"]),
     e("h_t03_lengths", "3 types of 126 to 130 octets, every form of the length in up to 3 octets", CN),
     e("h_t03_identifiers", "4 types, every identifier of up to 4 octets", CN))
