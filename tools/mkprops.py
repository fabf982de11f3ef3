#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the list stays reviewable)."""
import json, os
CG = "packed_struct_codegen/src/pack_codegen.rs"
PP = "packed_struct_codegen/src/pack_parse.rs"
PA = "packed_struct_codegen/src/pack_parse_attributes.rs"
PK = "packed_struct_codegen/src/pack.rs"
UT = "packed_struct_codegen/src/utils.rs"
DOC = "packed_struct_codegen/src/pack_codegen_docs.rs"
PE = "packed_struct_codegen/src/primitive_enum.rs"
NUM = "packed_struct/src/types_num.rs"
BITS = "packed_struct/src/types_bits.rs"
BAS = "packed_struct/src/types_basic.rs"
ARR = "packed_struct/src/types_array.rs"
VEC = "packed_struct/src/types_vec.rs"
TUP = "packed_struct/src/types_tuples.rs"
GEN = "packed_struct/src/types_generic.rs"
RES = "packed_struct/src/types_reserved.rs"
PKG = "packed_struct/src/packing.rs"
ENM = "packed_struct/src/primitive_enum.rs"
DBG = "packed_struct/src/debug_fmt.rs"
LIB = "packed_struct/src/lib.rs"
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, hook=None):
    assert len(title) <= 80, title
    assert id not in [x["id"] for x in P]
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe or [], "hook_needed": hook}})

p("C01", "MSB0 packing puts every field's bits exactly where they are declared",
  "For every derived structure with MSB0 (or automatic) positions and every combination of field values, the packed byte array holds each field's encoding in exactly the bits declared for it (bit 0 is the most significant bit of byte 0) and zero in every bit that no field claims. A field whose native type is wider than its slot contributes only its low bits and never disturbs a neighbouring field.",
  ["programs", "inputs"], "Every MSB0 layout (field kinds, widths 1..64, bit offsets, auto or explicit positions, declaration order) and every assignment of values to its fields.",
  "The code generator emits different shift/mask code for every (width, start bit modulo 8) pair; the tests compile a few dozen layouts and pack a few values of each.",
  [CG, PP, PK, UT], [("bit copy code generation (memcpy path and shifted path)", CG + " pack_bits"), ("field range assignment", PP + " parse_struct; " + PK + " get_bits_range"), ("byte masks", UT + " ones_u8")],
  ["PackedStruct::pack on derived structures"])
p("C02", "Unpacking reads exactly the declared bits of each field",
  "For every derived structure with MSB0 (or automatic) positions and every byte array of its size that unpacks, each unpacked field equals the decoding of exactly its declared bits (sign-extended for signed types). Changing any bit that no field claims never changes the unpacked value or the outcome.",
  ["programs", "inputs"], "Every MSB0 layout and every byte array of the packed size.",
  "Tests unpack a handful of byte arrays per layout, mostly ones that pack just produced, so garbage in unclaimed bits and most offset/width pairs are never exercised.",
  [CG, PP], [("bit extraction code generation", CG + " pack_bits/unpack_field"), ("field range assignment", PP + " parse_struct")],
  ["PackedStruct::unpack on derived structures"])
p("C03", "LSB0 positions mirror MSB0 positions exactly",
  "A structure declared with LSB0 bit numbering, an explicit byte size and field ranges packs and unpacks exactly as the structure declared with MSB0 numbering whose bit n is LSB0 bit size*8-1-n, for bits and for bytes positions and whichever end of an inclusive range is written first. Integer endianness inside the field is unaffected by the numbering.",
  ["programs", "inputs"], "Every LSB0 layout (widths, offsets, structure sizes, range spelled high-to-low or low-to-high, bits or bytes) and every value and byte array.",
  "The tests contain three LSB0 structures; ranges, sizes and byte positions are otherwise uncovered.",
  [PP, PA], [("LSB0 conversion", PP + " parse_struct"), ("range ordering", PA + " parse_position_val")],
  ["PackedStruct::pack and unpack on derived structures"])
p("C04", "Packing then unpacking returns the original field values",
  "For every derived structure and every combination of values that fit their fields, pack succeeds and unpacking the result succeeds and yields the same field values, for MSB0, LSB0, both endiannesses, arrays, nested structures, enums, catch-all enums and reserved fields together.",
  ["programs", "inputs"], "Every layout mixing the supported field kinds and every in-range value assignment.",
  "Round trips in the tests cover a few values of a few layouts; interactions of neighbouring fields and kinds are not enumerated.",
  [CG, NUM], [("pack and unpack code generated as inverses", CG), ("integer byte conversions", NUM)],
  ["PackedStruct::pack, PackedStruct::unpack"])
p("C05", "Unpacking then packing canonicalises: claimed bits kept, others zero",
  "For every byte array that unpacks into a derived structure, packing the result reproduces the array in all bits claimed by fields, with reserved fields at their constant and all unclaimed bits zero. Repeating unpack and pack changes nothing further.",
  ["programs", "inputs"], "Every layout and every byte array of its size.",
  "Tests start from values rather than from arbitrary bytes; unclaimed or reserved bits set by a peer are hardly exercised.",
  [CG, RES, NUM], [("generated pack starts from zeroed bytes", CG + " derive_pack"), ("reserved constants", RES)],
  ["PackedStruct::unpack followed by pack"])
p("C06", "Integer endianness is applied as declared, including partial widths",
  "A multi-byte integer, Integer or enum field is stored most significant byte first under endian msb/be and least significant byte first under lsb/le, where a little-endian width that is not a whole number of bytes stores its full low bytes first and its leftover top bits last. A field's own endian overrides the structure's default, values are case-insensitive, and fields of 8 bits or fewer are unaffected by endianness.",
  ["programs", "inputs"], "Every (type, width 1..64, bit offset, field endian, structure default endian, spelling) and every value.",
  "Tests cover u16/u32 and one 10 bit and one 24 bit width; the remaining partial widths, offsets and override combinations are not run.",
  [NUM, PP], [("partial-width LSB shifting", NUM + " LsbInteger::pack/unpack"), ("endianness selection", PP + " parse_reg_field")],
  ["PackedStruct::pack/unpack on derived structures, MsbInteger, LsbInteger"])
p("C07", "Width-limited integers wrap modulo 2^N with correct signedness",
  "Converting any native value into an N-bit Integer keeps exactly its low N bits, sign-extended for signed types and zero-extended for unsigned ones; reading it back by any route (into, dereference, to_primitive, Display, Debug) gives that value. The conversion is idempotent, in-range values are unchanged, and equality and hashing agree with equality of the values.",
  ["inputs"], "Every supported (native type, bit width) pair, and every native value.",
  "Unit tests sample about ten of the 128 type/width pairs with a few values each.",
  [NUM], [("masking and sign extension", NUM + " from_primitive, from_unpacked_to_signed, ones")],
  ["SizedInteger, From/Into, Deref, PartialEq, Hash, Display, Debug of Integer"])
p("C08", "Integer byte conversions are exact inverses in both byte orders",
  "For every native integer and every N-bit Integer, to_msb_bytes and to_lsb_bytes give the value's bytes in big- and little-endian order (for N bits, the low ceil(N/8) bytes), and from_msb_bytes/from_lsb_bytes recover the value from them, ignoring bits above N. The MSB and LSB packing helpers pack and unpack consistently with these, and the LSB byte string is the reverse of the MSB one.",
  ["inputs"], "Every native type, every (type, width) pair, every value and every byte string.",
  "Only a few widths and values are unit-tested.",
  [NUM], [("byte conversions", NUM + " as_bytes!/from_bytes!, integer_bytes_impl!"), ("packing helpers", NUM + " MsbInteger, LsbInteger")],
  ["IntegerAsBytes, SizedInteger, MsbInteger, LsbInteger"])
p("C09", "Unpacking is total: it never panics and fails only on invalid values",
  "For every derived structure and every byte array of its size, unpack neither panics nor hangs; it returns an InvalidValue error exactly when some bool field holds a raw value above 1 or some plain enum field holds an undeclared discriminant, and otherwise succeeds. Packing a structure of such fields always succeeds.",
  ["programs", "inputs"], "Every layout and every byte array of its size.",
  "Tests unpack almost only valid data; the error branch of a multi-field structure is barely exercised.",
  [CG, BAS, PE], [("error propagation with ? in generated code", CG + " unpack_field"), ("bool validation", BAS), ("from_primitive", PE)],
  ["PackedStruct::unpack/pack result"])
p("C10", "Reserved fields pack to their constant and ignore input",
  "A reserved-zero field of any width packs to all zero bits and a reserved-one field to all one bits in exactly its own range, without touching neighbouring bits. Unpacking accepts any content there and yields the same structure.",
  ["programs", "inputs"], "Every reserved width (including ones wider than 64 bits), offset, neighbouring field and byte content.",
  "Tests use reserved fields of a few widths at a few offsets.",
  [RES, CG], [("constant byte arrays", RES), ("masking of the reserved bytes", CG + " pack_bits")],
  ["PackedStruct::pack/unpack on derived structures"])
p("C11", "Array fields place element i at start + i * element width",
  "For an array field of any supported element type, length and element width, element i occupies the i-th consecutive element-width slot of the field's range from the most significant end, whether the size is given per element, as a whole range, or is implied by the type. Elements never overlap or swap and each is encoded with the field's own endianness.",
  ["programs", "inputs"], "Every element kind, array length, element width, bit offset and value.",
  "Tests use arrays of length 2 to 7 of a few element types, mostly byte aligned.",
  [PP, CG, ARR], [("array expansion into elements", PP + " parse_field"), ("element code generation", CG + " derive_pack")],
  ["PackedStruct::pack/unpack on derived structures with array fields"])
p("C12", "Nested structures occupy their slot as the last bits of their own packing",
  "A field whose type is itself packable (a derived structure, an array of bytes under a type alias, or a user type) packs into its slot the last slot-width bits of that type's own packed bytes, and unpacks from those bits with the leading bits zero, at any offset and any nesting depth. Errors of the inner type surface unchanged.",
  ["programs", "inputs"], "Every nesting depth, inner size, slot width, offset and value.",
  "Tests nest a few structures at byte-aligned offsets.",
  [CG, PP], [("nested pack/unpack calls and bit copy", CG + " pack_field, unpack_field, pack_bits")],
  ["PackedStruct::pack/unpack on derived structures"])
p("C13", "Enum fields encode their discriminant; catch-all fields keep every value",
  "An enum field of any slot width, backing type and endianness packs the discriminant's low bits and unpacks to the variant with that discriminant, or fails with InvalidValue when none matches. A catch-all enum field never fails: it unpacks to the matching variant, or else retains the raw value and packs it back unchanged.",
  ["programs", "inputs"], "Every enum (backing type, discriminant set), slot width, offset, endianness and raw slot content.",
  "Tests cover single-byte enums and a couple of widths; raw contents are not enumerated.",
  [CG, PE, ENM, PP], [("enum wrappers in generated code", CG + " pack_field, unpack_field"), ("catch-all", ENM + " EnumCatchAll")],
  ["PackedStruct::pack/unpack on derived structures"])
p("C14", "Primitive enum conversions are exact inverses on declared discriminants",
  "For every enum deriving a primitive conversion, to_primitive of each variant is the variant's discriminant as Rust assigns it (explicit, negative, typed-suffix or implicitly continued, also across negative values), and from_primitive returns exactly the variant for a declared discriminant and nothing for any other value of the backing type.",
  ["programs", "inputs"], "Every backing type, every sequence of explicit and implicit discriminants, every primitive value.",
  "Tests use a few enums with ascending discriminants and test a few inputs.",
  [PE], [("discriminant reconstruction", PE + " get_unitary_enum"), ("match generation", PE + " derive")],
  ["PrimitiveEnum::from_primitive/to_primitive"])
p("C15", "An implicit enum backing type can hold every discriminant",
  "When the backing type is left implicit, the derive selects the smallest of u8, u16, u32, u64 that holds every discriminant when none is negative, and a signed type that holds every discriminant when some is negative; a discriminant with a type suffix forces a type at least that wide. Any enum whose discriminants fit one of the supported integer types compiles.",
  ["programs"], "Every set of discriminants, in particular those at the limits of each integer type, negative and mixed-sign ones.",
  "Tests contain four implicit enums, none of mixed sign or near the signed limits.",
  [PE], [("minimal type detection", PE + " derive")],
  ["<E as PrimitiveEnum>::Primitive"])
p("C16", "Catch-all enums classify, compare and print consistently",
  "For a catch-all enum, from_primitive never fails and to_primitive returns the original value; declared values become the enum variant and all others the catch-all. Two catch-all enums are equal exactly when their primitive values are equal; display gives the variant name or the unknown value, and parsing a name gives the wrapped variant.",
  ["inputs", "programs"], "Every enum and every primitive value, every pair of values, and every string in the name alphabet.",
  "One test checks two values.",
  [ENM], [("EnumCatchAll implementations", ENM)],
  ["EnumCatchAll's PrimitiveEnum, PartialEq, From, display methods"])
p("C17", "Enum names parse and print consistently",
  "Displaying a variant gives exactly its identifier; from_str accepts exactly the identifiers (case-sensitively) and from_str_lower exactly their lower-cased forms, each giving the variant of that name; all_variants lists every variant once in declaration order.",
  ["programs", "inputs"], "Every enum and every string that is an identifier of it, a case variation, a prefix, an extension or another word.",
  "Tests check a few names of one enum.",
  [PE], [("string match generation", PE + " derive")],
  ["PrimitiveEnum::from_str/from_str_lower, to_display_str, all_variants"])
p("C18", "Fixed-size slice packing checks lengths exactly and matches array packing",
  "For every type with a fixed packed size, packing to or unpacking from a slice succeeds on the exact size with the same result as the array form, and for every other length fails with a buffer size mismatch carrying the expected and actual lengths, leaving the output buffer untouched. The reported packed size and pack_to_vec agree with it.",
  ["inputs", "programs"], "Every fixed-size packable type, every slice length from 0 up to well past the size, every content.",
  "Tests try one or two slice lengths on one or two types.",
  [GEN, PKG], [("blanket slice implementation", GEN), ("pack_to_vec", PKG)],
  ["PackedStructSlice on fixed-size types"])
p("C19", "Vectors of packed elements are the concatenation of their elements",
  "A Vec of fixed-size elements packs to the concatenation of its elements' packings into a buffer of exactly that size, and unpacks any slice whose length is a multiple of the element size into that many elements in order (an empty slice into an empty Vec). Any other length is rejected with a size or modulo mismatch carrying the lengths, the output buffer then being untouched, and the size of a Vec is only known with an instance.",
  ["inputs", "programs"], "Every element type and size, every element count and every slice length and content.",
  "Tests pack one or two vectors of one length.",
  [VEC], [("element slicing and length checks", VEC)],
  ["PackedStructSlice for Vec"])
p("C20", "Tuples chain their parts in order with at most one dynamic part",
  "A tuple of one to ten packable parts packs as the concatenation of its parts in order and unpacks by giving every fixed part its own size and the single dynamic part exactly the remaining bytes; its size is the sum of the parts' sizes. Lengths that do not fit are rejected with a size mismatch, and unpacking with more than one dynamic part is rejected as such, never by panicking or by misassigning bytes.",
  ["inputs", "programs"], "Every arity 1..10, every position and size of the dynamic part, every slice length and content.",
  "Tests use a few arities with one slice length each.",
  [TUP], [("length computation", TUP + " StructLengthBuilder, StructLengths"), ("tuple_impls", TUP)],
  ["PackedStructSlice for tuples"])
p("C21", "Errors of inner parts surface unchanged and stop the operation",
  "If packing, unpacking or sizing a part fails (an element of a Vec, a part of a tuple, a field or array element of a derived structure, however deeply nested), the enclosing operation fails with that same error, that of the first failing part in order, and never panics or returns a partially wrong success. Displaying a structure whose packing fails reports the error text instead.",
  ["fault_sequences", "programs"], "Every assignment of success or any error kind to every part, for every operation and container shape.",
  "No test makes a part fail inside a container.",
  [VEC, TUP, CG, GEN, DBG], [("? propagation", VEC + ", " + TUP + ", " + CG), ("display error path", DBG + " PackedStructDisplay::fmt")],
  ["PackedStructSlice, PackedStruct, Display on composites with a failing part"])
p("C22", "Reported sizes match the declared layout",
  "For every derived structure the packed byte array has the declared size_bytes, or else just enough bytes for the last declared bit, and the reported number of packed bits is size_bytes*8, or else one past the last declared bit. For every Bits/Bytes width, integer, reserved and elementary type the reported bit and byte counts are the width and its rounding up to whole bytes.",
  ["programs", "configurations"], "Every layout and every bit width available in every byte-types configuration.",
  "Tests assert sizes of a few structures.",
  [PP, BITS, NUM, RES, BAS, ARR], [("size computation", PP + " parse_struct"), ("Bits/Bytes types", BITS + " and build.rs")],
  ["PackedStructInfo::packed_bits, ByteArray length, NumberOfBits, NumberOfBytes"])
p("C23", "Well-formed layouts compile and ill-formed ones are rejected at compile time",
  "Every non-overlapping, fully sized layout of supported field types compiles. A layout is rejected at compile time when two fields overlap, a field exceeds the structure's byte size, an array range does not divide into its elements, positions are given without a bit numbering, LSB0 is used without a size or full ranges, a multi-byte integer has no endianness, a type's width is unknown, the first field's alignment is ambiguous, or a struct/field attribute is used in the wrong place.",
  ["programs"], "Every small layout, both valid and with each kind of defect at each place.",
  "There is one compile-fail test in the repository; validity is otherwise only tested by layouts that happen to be in the tests.",
  [PP, PA, PK, UT], [("overlap and range checks", PP + " parse_struct"), ("attribute checks", PP + " parse_sub_attributes, get_field_mid_positioning")],
  ["rustc's verdict on a derive"])
p("C24", "All position and size notations denote the documented bits",
  "The documented spellings of a position (single, open-ended start, exclusive range, inclusive range with ':' or '..='), in bits or bytes, decimal or hexadecimal, with surrounding spaces and either end first, and the size attributes in bits or bytes denote exactly the documented bits. Automatic placement continues directly after the previous field.",
  ["programs"], "Every notation and every small pair of positions and sizes, combined with every preceding field placement.",
  "A unit test checks a dozen strings, and structures in tests use a few of the notations.",
  [PA, PP, PK], [("position parsing", PA + " parse_position_val"), ("number parsing", PP + " parse_num"), ("placement", PK + " get_bits_range")],
  ["the bits a compiled structure packs into"])
p("C25", "The runtime visualisation shows the true packed bytes and field bits",
  "Displaying a structure prints its name and size, its packed bytes in decimal, hexadecimal and binary, and one line per field (and per array element) with its name, its MSB0 bit range, exactly the packed bits of that range and the field's debug value; bit columns are left out when some field spans more than 33 bits. Each section can be switched off independently.",
  ["programs", "inputs"], "Every layout, every value and every combination of the section switches.",
  "One test compares the output for one structure.",
  [DBG, DOC], [("formatting", DBG), ("field table generation", DOC + " struct_runtime_formatter")],
  ["Display and packed_struct_display_formatter of derived structures, DebugBinaryByteSlice"])
p("C26", "The generated documentation table states the true layout",
  "The documentation generated for a derived structure states its packed size in bytes and lists every field, and every array element, in declaration order with exactly the MSB0 bit or bit range it is packed into.",
  ["programs"], "Every layout.",
  "No test reads the generated documentation.",
  [DOC], [("documentation generation", DOC + " type_docs")],
  ["the doc attributes in the expanded source"])
p("C27", "Packing is a pure function: no operation affects another",
  "The result of every packing, unpacking, sizing, conversion or display operation depends only on its own inputs and type: whatever operations ran before, run in between (also from user code called back in the middle of an operation) or run on another thread, the result is the same, and inputs are left unmodified.",
  ["histories", "schedules"], "Every sequence of operations from a small alphabet up to a depth, every interleaving of two threads at call and call-back granularity, and every re-entrant call.",
  "Each unit test runs a few calls in one fixed order.",
  [CG, VEC, TUP, NUM, DBG], [("absence of shared state", "all crates")],
  ["every public operation"])
p("C28", "Every feature configuration packs and unpacks identically",
  "The same structures and inputs give identical results with std, with alloc only and with neither, with the default, 64 and 256 byte-type ranges, with and without serialization support, and in debug, optimised and release builds; larger byte-type configurations only add widths.",
  ["configurations", "programs", "inputs"], "Every supported combination of crate features and build profiles, over a fixed corpus of structures and inputs.",
  "The test suite runs in the default configuration plus one no_std structure.",
  [LIB, BITS, "packed_struct_codegen/src/common.rs"], [("feature-dependent code", LIB + "; packed_struct_codegen/src/common.rs")],
  ["all public operations under each configuration"])
p("C29", "Serialised integers survive a round trip and deserialise into range",
  "With serialization support on, an N-bit Integer serialises as its plain number and deserialising gives back an equal Integer; deserialising any number of the native type gives the Integer that converting that number would give, so a deserialised Integer is always within its N-bit range, and numbers outside the native type are rejected. Reserved fields and packing errors survive a serialisation round trip as well.",
  ["inputs"], "Every (type, width) pair and every native number.",
  "No test enables this feature.",
  [NUM, RES], [("Serialize/Deserialize implementations", NUM + " mod serialize")],
  ["serde of Integer"])
p("C30", "Field names and declaration order never affect the packed result",
  "Renaming fields to any identifiers (including ones like src, target, packed, bytes, b, x_0 beside an array x, and raw identifiers) or declaring explicitly positioned fields in any order leaves the packing, unpacking and sizes of the structure unchanged.",
  ["programs", "inputs"], "Every permutation of the fields of small layouts and every assignment of names from a list of adversarial identifiers.",
  "All tests use ordinary field names in ascending position order.",
  [CG], [("local variable names in generated code", CG + " derive_pack")],
  ["PackedStruct::pack/unpack on derived structures"])
p("C31", "Elementary types and byte arrays pack to their documented bytes",
  "Standing alone, u8 and i8 pack to their one byte, bool to 0 or 1 (any other byte is InvalidValue), the unit type to nothing, byte arrays of any length to themselves, and the MSB/LSB integer helpers to ceil(N/8) bytes holding the value in the last N bits; each unpacks back from exactly those bytes.",
  ["inputs", "programs"], "Every value of the elementary types, every byte, every array length in a range, every (type, width) pair.",
  "The elementary implementations are tested with one or two values or not at all.",
  [BAS, ARR, NUM, GEN], [("elementary implementations", BAS + ", " + ARR), ("integer helpers", NUM)],
  ["PackedStruct and PackedStructSlice on elementary types"])
p("C32", "Byte array helpers move bytes without loss or overrun",
  "For byte arrays of every length, creating, slicing and measuring give exactly the array's bytes and length, and rotating right by k bytes (k below the length) moves every byte k places up and fills the first k bytes with zero.",
  ["inputs"], "Every array length up to a bound, every k below it, every content from a byte alphabet.",
  "One unit test rotates one four-byte array by one.",
  [BITS], [("bytes_rotate_right", BITS)],
  ["ByteArray"])
p("C33", "A display stops at the first failure of its writer and reports it",
  "Formatting a derived structure, a PackedStructDisplay with any switches, a field listing, an integer or its MSB/LSB helper, a reserved field, a packing error or a bit range into a writer that fails returns the failure: nothing is written after the first refused write, and what was accepted before it is the beginning of the complete text. With a writer that accepts everything, formatting succeeds. A PackedStructDebug::fmt_fields that fails makes the PackedStructDisplay that lists the fields fail.",
  ["fault_sequences", "programs"], "Every write call and every byte of the text at which the writer can fail, for every kind of displayable value and every choice of sections.",
  "The tests only format into strings, which never fail; a dropped result is invisible until a fixed-size buffer overflows.",
  [DBG, DOC, NUM, RES, PKG], [("visualisation", DBG + " PackedStructDisplay, packable_fmt_fields, DebugBinaryByteSlice"), ("generated Display", DOC)],
  ["Display, Debug and Binary implementations", "PackedStructDebug::fmt_fields"])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w").write("".join(json.dumps(x) + "\n" for x in P))
print(len(P))
