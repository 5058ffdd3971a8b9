#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os
RT = "packed_struct/src/"
CG = "packed_struct_codegen/src/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe, "hook_needed": None}}
    if state: d["anchors"]["state"] = state
    P.append(d)

p("C01", "Every field is packed into exactly its declared bits",
  "For every accepted structure and every value, packing puts each field's bits, most significant first, into exactly the bit positions the declaration gives (MSB0 or mirrored LSB0 numbering, explicit or following the previous field), in the field's byte order. Every bit that no field claims is 0. No field's value influences a bit outside its own range.",
  ["inputs", "programs"], "every structure declaration (start offset mod 8, width, kind, byte order, neighbours) and every field value",
  "The tests pack about thirty declarations with a few values each; there are 8 x 64 x 2 x 2 offset/width/endianness/sign classes, each with up to 2^64 values.",
  [CG+"pack_codegen.rs", CG+"pack_parse.rs", CG+"utils.rs", RT+"types_num.rs", RT+"packing.rs"],
  [("byte-aligned copy and shift/mask bit placement", CG+"pack_codegen.rs pack_bits"), ("bit range resolution", CG+"pack_parse.rs parse_struct, utils.rs BitsRange")],
  ["PackedStruct::pack of derived structures"])

p("C02", "Unpacking returns exactly the field values that were packed",
  "For every accepted structure and every value whose fields fit their declared widths, unpacking the packed bytes succeeds and yields the same value for every field (a nested structure's being values whose claimed bits all lie in the low-order bits the field takes). This holds for every field kind: booleans, native and bit-limited integers (signed ones sign-extended), enums, catch-all enums, byte arrays, arrays and nested structures.",
  ["inputs", "programs"], "every structure declaration and every in-range value",
  "Round trips are tested with 100 pseudo-random values of two structures and a handful of constants for two widths.",
  [CG+"pack_codegen.rs", RT+"types_num.rs", RT+"types_basic.rs", RT+"types_array.rs", RT+"primitive_enum.rs"],
  [("mirrored pack/unpack shift expressions", CG+"pack_codegen.rs pack_bits"), ("wrapper chain undone in reverse", CG+"pack_codegen.rs pack_field / unpack_field"), ("sign extension", RT+"types_num.rs from_unpacked_to_signed")],
  ["PackedStruct::pack", "PackedStruct::unpack"])

p("C03", "Unpacking looks only at the bits a field declares",
  "The value unpacked for a field depends only on the bits in that field's declared range; bits in gaps, padding or other fields never change it, and never change whether unpacking succeeds. Any byte pattern whose enum and boolean fields are valid unpacks successfully.",
  ["inputs", "programs"], "every structure declaration and every byte array of its size",
  "Tests unpack mostly arrays that were just packed, so gap and padding bits are always zero there.",
  [CG+"pack_codegen.rs", RT+"types_num.rs"],
  [("source masks on unpack", CG+"pack_codegen.rs pack_bits (unpack)"), ("padding dropped when unpacking partial-byte integers", RT+"types_num.rs LsbInteger::unpack, from_primitive")],
  ["PackedStruct::unpack"])

p("C04", "Native and bit-limited integers use the stated byte order",
  "Converting any integer (8 to 64 bits, signed or unsigned) to MSB bytes yields its big-endian bytes and to LSB bytes its little-endian bytes; a bit-limited integer yields the low-order whole bytes that hold its width. The from-bytes conversions are their exact inverses for every value and width.",
  ["inputs"], "8 native types, 128 type/width pairs, every value",
  "Unit tests check one value for three widths and byte orders; swapped or dropped bytes in the other 125 pairs go unseen.",
  [RT+"types_num.rs"],
  [("as_bytes!/from_bytes! tables", RT+"types_num.rs"), ("prefix/suffix selection for narrow widths", RT+"types_num.rs integer_bytes_impl!")],
  ["IntegerAsBytes", "SizedInteger::{to,from}_{msb,lsb}_bytes"])

p("C05", "MSB and LSB integer wrappers have the documented bit layout",
  "Packing an N-bit integer through the MSB wrapper right-aligns its N bits big-endian; through the LSB wrapper it emits the low-order full bytes first and the remaining high-order bits last, right-aligned in ceil(N/8) bytes. Unpacking is the exact inverse, ignores the leading padding bits, and both hold for every supported type, width and value.",
  ["inputs"], "128 type/width pairs x 2 byte orders, every value",
  "The LSB partial-byte path is unit-tested for one 10-bit value; it is reached by 112 type/width pairs.",
  [RT+"types_num.rs"],
  [("bit shifting of the full bytes", RT+"types_num.rs LsbInteger::pack / unpack"), ("MSB delegation", RT+"types_num.rs MsbInteger")],
  ["MsbInteger/LsbInteger pack and unpack"])

p("C06", "A bit-limited integer never holds an out-of-range value",
  "However a bit-limited integer is obtained through the public API (conversion, default, unpacking, deserialization), its value fits its declared width: the low N bits of the source are kept, higher bits are dropped, and signed values are sign-extended from bit N-1. There is no way to modify the stored number in place.",
  ["inputs"], "128 type/width pairs, every source value, every public way to obtain or modify one",
  "Sign extension is tested for widths 4 and 7 and at native widths; nothing tests that no other constructor or mutable access exists.",
  [RT+"types_num.rs"],
  [("masking constructor", RT+"types_num.rs SizedInteger::from_primitive, value_bit_mask, ones"), ("private fields, Deref without DerefMut", RT+"types_num.rs Integer")],
  ["Integer conversions", "Deserialize for Integer"],
  [{"name": "Integer.num", "meaning": "the stored native value, always in range", "where": RT+"types_num.rs"}])

p("C07", "Reserved fields always pack their fixed bits and accept anything",
  "A reserved-zero field packs as all zero bits and a reserved-one field as all one bits, whatever the width and whatever was unpacked before. Unpacking a reserved field never fails and never depends on the input bits.",
  ["inputs", "programs"], "every reserved width and position, every input",
  "One structure with a 4-bit and a 3-bit reserved field is tested on one byte.",
  [RT+"types_reserved.rs", CG+"pack_codegen.rs"],
  [("constant byte per reserved kind", RT+"types_reserved.rs ReservedBitValue"), ("input ignored", RT+"types_reserved.rs ReservedBits::unpack")],
  ["ReservedBits pack/unpack, derived structures with reserved fields"])

p("C08", "Invalid booleans and enum values are rejected, valid ones accepted",
  "Unpacking succeeds exactly when every boolean field holds 0 or 1 and every primitive enum field holds the value of one of its variants; otherwise it returns the invalid-value error. It never substitutes another value.",
  ["inputs", "programs"], "every byte pattern of boolean and enum fields of every width and backing type",
  "No test unpacks an undefined discriminant or an out-of-range boolean.",
  [RT+"types_basic.rs", CG+"pack_codegen.rs", CG+"primitive_enum.rs"],
  [("strict boolean match", RT+"types_basic.rs bool::unpack"), ("from_primitive turned into InvalidValue", CG+"pack_codegen.rs unpack_field")],
  ["PackedStruct::unpack for bool, enums and structures containing them"])

p("C09", "Primitive enum number conversion is an exact bijection",
  "For every derived enum, converting a variant to its primitive gives the variant's Rust discriminant, and converting a primitive back gives that same variant for exactly the declared discriminants and nothing for any other number. This holds for explicit, implicit, negative and mixed discriminants and all eight backing types.",
  ["inputs", "programs"], "every enum declaration, every variant, every number of the backing type",
  "Tests cover a dozen enums and never query an undefined number.",
  [CG+"primitive_enum.rs", RT+"primitive_enum.rs"],
  [("discriminant tracking for implicit values", CG+"primitive_enum.rs get_unitary_enum"), ("generated match", CG+"primitive_enum.rs derive from_primitive / to_primitive")],
  ["PrimitiveEnum::{from_primitive,to_primitive}"])

p("C10", "Catch-all enums accept every number and give it back unchanged",
  "Converting any number into a catch-all enum always succeeds, yields the known variant when the number is a declared discriminant and the catch-all holding that number otherwise, and converting back returns the same number. Two catch-all values are equal exactly when their numbers are equal.",
  ["inputs", "programs"], "every wrapped enum and every number of its backing type",
  "One enum and one unknown value are tested.",
  [RT+"primitive_enum.rs"],
  [("fallback to CatchAll", RT+"primitive_enum.rs EnumCatchAll::from_primitive"), ("numeric equality", RT+"primitive_enum.rs PartialEq for EnumCatchAll")],
  ["EnumCatchAll conversions, equality, packing"])

p("C11", "Enum names, parsing and the variant list agree with the declaration",
  "A derived enum's display string is the variant's name; parsing that string, or (where it is unambiguous) its lowercase form with the lowercase parser, returns the variant; any other string parses to nothing. The variant list holds every variant once in declaration order, and the static and dynamic forms agree (the catch-all form adds only the wrapping and an unknown-value text).",
  ["inputs", "programs"], "every enum declaration and every string",
  "Tests look up two names of one enum and list four variants.",
  [CG+"primitive_enum.rs", RT+"primitive_enum.rs"],
  [("generated string tables", CG+"primitive_enum.rs derive"), ("delegation", RT+"primitive_enum.rs EnumCatchAll")],
  ["PrimitiveEnum::{from_str,from_str_lower}", "PrimitiveEnumStaticStr", "PrimitiveEnumDynamicStr"])

p("C12", "The detected backing type can represent every variant",
  "When the backing type is not given, the derive chooses an integer type that can represent every discriminant: signed exactly when some discriminant is negative, and of the smallest width that fits them all (a literal's own type suffix decides instead if present). When it is given, exactly that type is used.",
  ["programs"], "every combination of discriminants (8/16/32/64-bit boundaries, negative, mixed)",
  "Tests cover eight two-variant enums whose positive variant never needs a wider type than the negative one.",
  [CG+"primitive_enum.rs", CG+"lib.rs"],
  [("width detection and priority", CG+"primitive_enum.rs derive"), ("explicit derives", CG+"lib.rs")],
  ["PrimitiveEnum::Primitive of derived enums"])

p("C13", "Slice packing and unpacking require exactly the packed size",
  "Packing into or unpacking from a slice succeeds only if the slice is exactly the packed size; any other length returns the buffer-size error carrying the expected and actual sizes and leaves the output untouched. At the right length the result is identical to the fixed-array form.",
  ["inputs"], "every type and every slice length and content",
  "Tests pass only correctly sized slices, apart from one undersized tuple.",
  [RT+"types_generic.rs", RT+"packing.rs"],
  [("length check before packing", RT+"types_generic.rs pack_to_slice / unpack_from_slice"), ("exact allocation", RT+"packing.rs pack_to_vec")],
  ["PackedStructSlice for PackedStruct types"])

p("C14", "Packing and unpacking never panic",
  "No call of the packing, unpacking, enum conversion or slice API with any value, byte pattern or slice length panics, overflows or indexes out of bounds: every failure is returned as a packing error. This holds with overflow checks enabled, as long as memory is available and packed sizes fit the address space.",
  ["inputs", "programs"], "every value, byte array, slice length, structure, tuple and vector",
  "A panic needs one unlucky value or length; tests visit a few per type.",
  [RT+"types_num.rs", RT+"types_generic.rs", RT+"types_tuples.rs", RT+"types_vec.rs", RT+"types_basic.rs", RT+"types_array.rs", RT+"types_reserved.rs", RT+"primitive_enum.rs", RT+"lib.rs", CG+"pack_codegen.rs", CG+"primitive_enum.rs"],
  [("checked slice access", RT+"lib.rs lib_get_slice / lib_get_mut_slice"), ("length checks", RT+"types_generic.rs, types_tuples.rs, types_vec.rs"), ("constant in-range indexes in generated code", CG+"pack_codegen.rs")],
  ["all PackedStruct / PackedStructSlice / PrimitiveEnum methods"])

p("C15", "Tuples pack their members back to back, with at most one dynamic",
  "A tuple of packable members occupies the concatenation of its members' bytes in order, with no gap or overlap, for packing and unpacking alike. One dynamically sized member takes exactly the bytes the others leave; more than one when unpacking, or a total length that does not fit, is an error.",
  ["inputs", "programs"], "tuples of 1 to 10 members, every position of the dynamic member, every length and content",
  "One all-static triple, one undersized input and two doc examples are tested.",
  [RT+"types_tuples.rs"],
  [("length partition", RT+"types_tuples.rs StructLengthBuilder::build, StructLengths::new"), ("per-member ranges", RT+"types_tuples.rs tuple_impls!")],
  ["PackedStructSlice for tuples"])

p("C16", "Vectors pack item by item and demand a whole number of items",
  "A vector of items of a fixed nonzero packed size occupies the concatenation of the items in order, both packing and unpacking; unpacking a length that is not a multiple of the item size returns the modulo error with both sizes, and packing into a buffer of another size the buffer-size error. The reported size is the item count times the item size, and without an instance the size is reported as unknown. Items whose size depends on the instance are refused: no size is reported for a vector that holds some, and packing and unpacking fail with InstanceRequiredForSize.",
  ["inputs", "programs"], "every item type, item count, buffer length and content",
  "No test packs a vector of items larger than one byte or an input with a remainder.",
  [RT+"types_vec.rs"],
  [("item ranges and modulo check", RT+"types_vec.rs")],
  ["PackedStructSlice for Vec"])

p("C17", "Ill-formed declarations are rejected at compile time",
  "A declaration whose fields overlap, exceed the stated size, leave the width undetermined, lack a needed byte order or bit numbering, neither place the first field nor state a size although the fields do not fill whole bytes, use the wrong attribute kind, have an array width that is not a multiple of the element count, or use unsupported shapes (generics, enums, tuple structs, zero-sized arrays) does not compile. A malformed attribute, or a recognised one whose value is unusable, is rejected, never silently ignored or read as something else, with and without overflow checks in the derive. (Unknown attribute names are allowed by the documentation.) The corrected declaration does compile.",
  ["programs"], "every declaration",
  "Rust tests only contain declarations that compile, so no test exercises a rejection.",
  [CG+"pack_parse.rs", CG+"pack_parse_attributes.rs", CG+"primitive_enum.rs", CG+"lib.rs"],
  [("overlap bitmap", CG+"pack_parse.rs parse_struct"), ("width and numbering checks", CG+"pack_parse.rs get_field_mid_positioning, parse_field, parse_reg_field"), ("attribute parsing", CG+"pack_parse.rs parse_sub_attributes, pack_parse_attributes.rs")],
  ["rustc diagnostics for derive(PackedStruct) and derive(PrimitiveEnum*)"])

p("C18", "Equivalent position notations describe the same layout",
  "The documented notations mean what the documentation says: inclusive a:b and a..=b in either order, exclusive a..b, single n, open-ended n.. and n:, decimal or hexadecimal, byte positions being eight times the bit positions, and LSB0 numbers mirrored within the stated size. Fields without a position directly follow the previous field.",
  ["programs"], "every notation, offset and width, in both numberings",
  "The parser is unit-tested on fifteen strings; LSB0 mirroring on four structures.",
  [CG+"pack_parse_attributes.rs", CG+"pack_parse.rs", CG+"utils.rs"],
  [("notation parser", CG+"pack_parse_attributes.rs parse_position_val, pack_parse.rs parse_num"), ("LSB0 mirror", CG+"pack_parse.rs parse_struct"), ("range computation", CG+"utils.rs BitsRange")],
  ["bit positions of derived structures"])

p("C19", "Field byte order overrides the structure default",
  "An integer or enum field wider than eight bits uses its own byte order if given and the structure's default otherwise, in every spelling (msb/be, lsb/le, any case) and for every element of an array; fields of up to eight bits are unaffected by any byte order setting. Byte order never affects booleans, byte arrays, reserved or nested fields.",
  ["programs", "inputs"], "every combination of default, override, kind and width",
  "Only a few combinations of default and override are tested, none with be/le spellings or arrays.",
  [CG+"pack_parse.rs", CG+"pack_parse_attributes.rs"],
  [("endianness resolution", CG+"pack_parse.rs parse_reg_field"), ("spellings", CG+"pack_parse.rs IntegerEndianness::from_str")],
  ["PackedStruct::pack / unpack of derived structures"])

p("C20", "All reported sizes agree",
  "For every packable type the byte array type, the slice size query and the number of bits agree: the array has ceil(bits/8) bytes, and the size query returns the array's length whether or not an instance is given. A derived structure's bit count is its stated size, or else its highest claimed bit plus one; Bits<N> types report N bits and ceil(N/8) bytes.",
  ["programs"], "every type, every width up to the generated limit, every declaration",
  "Tests check packed_bits of one 30-bit integer only.",
  [CG+"pack_codegen.rs", CG+"pack_parse.rs", RT+"types_bits.rs", RT+"types_generic.rs", RT+"types_num.rs", RT+"types_reserved.rs", RT+"types_array.rs", RT+"types_basic.rs", "packed_struct/build.rs"],
  [("size computation", CG+"pack_parse.rs parse_struct"), ("generated Bits table", "packed_struct/build.rs, types_bits.rs bits_type!")],
  ["PackedStruct::ByteArray", "PackedStructInfo::packed_bits", "PackedStructSlice::packed_bytes_size", "NumberOfBits"])

p("C21", "The runtime visualisation shows the real layout",
  "The debug visualisation lists every field (each array element separately) in declaration order with its own name, bit range and value, and the binary digits it prints for a field are exactly that field's bits of the packed bytes, most significant first. The header names the structure and its byte size, and the raw sections print the packed bytes in order. (A structure with a field of 34 or more bits lists only names and values.)",
  ["inputs", "programs"], "every structure and value, every bit range",
  "The tests print the visualisation and never look at it.",
  [RT+"debug_fmt.rs", CG+"pack_codegen_docs.rs"],
  [("field table", CG+"pack_codegen_docs.rs struct_runtime_formatter"), ("bit rendering", RT+"debug_fmt.rs DebugBinaryByteSlice, packable_fmt_fields, PackedStructDisplay")],
  ["PackedStructDebug", "Display of derived structures", "DebugBitField"])

p("C22", "The generated documentation table matches the layout",
  "The documentation attached to a derived structure states its packed byte size and has one row per field (per element for arrays) in declaration order, giving the MSB0 bit or bit range, the name and the type that packing really uses.",
  ["programs"], "every declaration",
  "No test reads the generated documentation.",
  [CG+"pack_codegen_docs.rs"],
  [("row emission", CG+"pack_codegen_docs.rs type_docs")],
  ["doc attributes emitted by derive(PackedStruct)"])

p("C23", "Packing is a pure, safe function of its arguments",
  "Packing, unpacking, conversions and size queries depend only on their arguments: they read and write no global or thread-local state, use no interior mutability, input/output, time or randomness, so repeated calls give identical results. Neither the library nor the code it generates contains unsafe code.",
  ["histories", "schedules"], "every call sequence and thread interleaving",
  "Tests never compare two calls in different histories or from different threads.",
  [RT+"types_num.rs", RT+"types_generic.rs", RT+"types_tuples.rs", RT+"types_vec.rs", RT+"primitive_enum.rs", RT+"debug_fmt.rs", CG+"pack_codegen.rs", CG+"primitive_enum.rs"],
  [("no statics, no unsafe in the library", "packed_struct/src"), ("generated code only uses arguments and locals", CG+"pack_codegen.rs")],
  ["call graph of every public entry point"])

p("C24", "Errors of inner values are returned, unchanged, to the caller",
  "When packing or unpacking a member of a structure, array, tuple or vector fails, the whole operation fails with that same error; no failure is swallowed, replaced or turned into a value, at any nesting depth. Formatting a structure whose packing fails reports the failure instead of printing data.",
  ["inputs", "programs"], "every composition and every failing member position",
  "No test makes a nested member fail.",
  [CG+"pack_codegen.rs", RT+"types_generic.rs", RT+"types_tuples.rs", RT+"types_vec.rs", RT+"types_num.rs", RT+"debug_fmt.rs"],
  [("question-mark propagation in generated code", CG+"pack_codegen.rs pack_field / unpack_field"), ("propagation in containers", RT+"types_tuples.rs, types_vec.rs, types_generic.rs")],
  ["Result of every pack/unpack call"])

p("C25", "The library and its derives work in every documented configuration",
  "The library compiles with each documented feature set (default, no default features, alloc on nightly, serde support, each enlarged byte width), and derived code compiles against it. Without the default features neither the library nor derived code refers to the standard library or an allocator.",
  ["configurations"], "every documented combination of features",
  "One no_std program is compiled on a host where std is present; alloc, byte_types_256 and most combinations are never built.",
  ["packed_struct/Cargo.toml", RT+"lib.rs", RT+"internal_prelude/no_std.rs", RT+"internal_prelude/std.rs", CG+"common.rs", CG+"pack_codegen.rs", CG+"primitive_enum.rs"],
  [("feature-dependent preludes", RT+"internal_prelude"), ("feature-dependent paths in generated code", CG+"common.rs")],
  ["type-checked crate and its resolved paths, per configuration"])

p("C26", "Serialized integers are plain numbers and are re-limited on input",
  "With serde support a bit-limited integer serializes as exactly its plain number and deserializes from a plain number, limited to its width like any other conversion; a failing deserializer's error is passed on. The error type and the reserved and marker types are serializable both ways.",
  ["inputs"], "every type/width pair, value and serializer",
  "The test only checks that the trait bounds hold; nothing is serialized.",
  [RT+"types_num.rs", RT+"types_reserved.rs", RT+"packing.rs"],
  [("transparent Serialize/Deserialize", RT+"types_num.rs mod serialize"), ("derives", RT+"types_reserved.rs, packing.rs")],
  ["serde traits on Integer, ReservedBits, PackingError"])

p("C27", "Array elements and nested structures keep order and place",
  "An array field of n elements in w*n bits puts element i at bits i*w to i*w+w-1 of the field, for every element kind, and unpacks element i from there. A nested structure contributes the low-order bits of its own packed form, as many as the field is wide; names of fields never change where or how they are stored.",
  ["inputs", "programs"], "every element kind, count, element width, start offset and nesting depth",
  "Tests use arrays of bytes, booleans and one 4-bit structure, at few offsets.",
  [CG+"pack_parse.rs", CG+"pack_codegen.rs"],
  [("element ranges", CG+"pack_parse.rs parse_field"), ("per-element code", CG+"pack_codegen.rs derive_pack")],
  ["PackedStruct::pack / unpack of structures with arrays or nested structures"])

p("C28", "Wrapped numbers compare, hash and print as the number they hold",
  "Two bit-limited integers are equal exactly when the numbers they hold are equal, and equal ones hash alike. A bit-limited integer and its MSB and LSB wrappers print, with {} and with {:?}, as the plain number. Dereferencing, to_primitive, cloning and putting one into or taking it out of a wrapper give the same number, the default is zero. All values of one reserved type are equal, and their text says which bit they hold.",
  ["inputs"], "all 128 type and width pairs, every value, every pair of values",
  "Tests compare a few constants; a comparison that looks at part of the number, or a text in another base or sign, shows on particular values and widths only.",
  [RT+"types_num.rs", RT+"types_reserved.rs", RT+"types_bits.rs"],
  [("comparison, hash and formatting of the number", RT+"types_num.rs impl PartialEq, Hash, Debug, Display for Integer"), ("wrappers", RT+"types_num.rs MsbInteger, LsbInteger")],
  ["Integer, MsbInteger, LsbInteger, ReservedBits"])

p("C29", "Every error value says which error it is",
  "For every packing error and every number in it, the text (Display, Debug, and through std::error::Error) names the variant and shows each number behind its own name; the description is not empty and differs between variants. Two errors are equal exactly when variant and numbers are. Every packing error converts into a formatting error.",
  ["inputs"], "all ten variants, all pairs of variants, every number in them",
  "No test looks at the text of an error.",
  [RT+"packing.rs"],
  [("text, description and conversion of errors", RT+"packing.rs PackingError")],
  ["PackingError"])

p("C30", "Byte arrays expose and move exactly their own bytes",
  "For every array size, ByteArray::new(v) holds v in every byte, len is the array's size, the slices are the array's bytes in order (writing through the mutable one changes the array), and rotate_right(k), for k below the size, moves every byte k places towards the end and leaves zeroes in the first k.",
  ["inputs"], "array sizes, contents, every distance",
  "One test moves one array of four bytes by one.",
  [RT+"types_bits.rs"],
  [("ByteArray for [u8; N]", RT+"types_bits.rs ByteArray, bytes_rotate_right")],
  ["types::bits::ByteArray"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
