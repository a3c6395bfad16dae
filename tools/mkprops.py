#!/usr/bin/env python3
# Source of properties.jsonl (kept here so that statements are easy to edit).
import json,sys,os
P=[]
def p(id,title,statement,over,text,why,files,mech):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech])))

p("C01","Primitive codecs are exact, canonical and reject what does not fit",
 "For every built-in scalar type (fixed-width and bit-field integers of 1..64 bits, the variable-length integers, bool, float16/32/64, string, bytes, extern) writing any representable value yields exactly the bits zserio prescribes, the shortest form for variable-length integers, and reading them back yields the same value and consumes exactly those bits. Writing a value outside a variable-length integer's range, or asking for an impossible bit width, returns an error and never writes other bits in its place. The advertised bit size of a value equals the number of bits written.",
 ["inputs"],"All values of every built-in type: all 1-, 8- and 16-bit values, all boundary values +-2 of every width and every variable-length step, and random values; at every starting bit position modulo 8.",
 "Tests check about ten hand-picked values per type, each on a byte-aligned fresh stream.",
 ["ztype/varint_encode.go","ztype/varint_decode.go","ztype/varuint_encode.go","ztype/varuint_decode.go","ztype/bits_encode.go","ztype/bits_decode.go","ztype/float_encode.go","ztype/string_encode.go","ztype/bytes_encode.go","ztype/extern_encode.go","ztype/array_traits.go"],
 [("variable-length integer encoders and size functions","ztype/varint_encode.go, ztype/varuint_encode.go"),("signed bit fields","ztype/bits_encode.go, ztype/bits_decode.go"),("extern/bytes with partial last byte","ztype/extern_encode.go")])
p("C02","The bit stream is a faithful sequence of bits",
 "Whatever sequence of bit, bool, byte, multi-byte and alignment operations is written, the bytes produced are exactly the concatenation of the written bits in order, with zero bits inserted by alignment and at the end, and reading the same sequence of operations returns what was written. The position reported by reader and writer always equals the number of bits transferred so far, whatever alignment was requested.",
 ["histories","inputs"],"Every sequence of operations (bits 1..64, bool, byte, byte slices, align to any boundary incl. ones that are no power of two or exceed 64) on writer and reader.",
 "Tests exercise two or three fixed sequences with byte alignment only.",
 ["zstream/reader.go","zstream/writer.go","iface.go"],
 [("alignment padding and position counting","zstream/writer.go, zstream/reader.go")])
p("C03","Generated types round-trip every value",
 "For every type that a schema defines and every value that fits the schema, encoding succeeds, and decoding the produced bytes into a fresh object yields an equal value (optional and conditional fields, arrays, nested and parameterised compounds included) and consumes exactly the bits that were written. Encoding the decoded object again gives the same bytes.",
 ["programs","inputs"],"All schemas the generator accepts (hand-written corpus, the repository's own schemas, and seeded random schemas) times values, boundary-biased and random.",
 "Tests use about a dozen schemas with one value each; the claim ranges over all schemas and values.",
 ["internal/generator/templates/encode.go.tmpl","internal/generator/templates/decode.go.tmpl","internal/generator/templates/struct.go.tmpl","internal/generator/expression.go","internal/generator/types.go","ztype/array_encode.go","ztype/array_decode.go","marshal.go"],
 [("field encode/decode templates","internal/generator/templates/encode.go.tmpl, decode.go.tmpl"),("array engines","ztype/array.go, ztype/object_array.go")])
p("C04","Encoded bytes follow the zserio wire format",
 "For every schema type and value the produced bit string is the one the zserio specification prescribes: fields in declaration order, big-endian bit packing without padding, presence bits, length prefixes, alignment, bit widths of bit fields, enum and bitmask base types, union tags and conditional fields. Decoding any such bit string gives the value it stands for, so that data is interchangeable with other zserio implementations.",
 ["programs","inputs"],"Schemas times values, each compared bit for bit with an independently written encoder working directly from the schema text, at all start positions modulo 8.",
 "Reference tests compare a dozen byte strings; a codec that is self-consistent but non-standard passes every other test.",
 ["internal/generator/templates/encode.go.tmpl","internal/generator/templates/decode.go.tmpl","internal/generator/templates/union.go.tmpl","internal/generator/templates/choice.go.tmpl","internal/generator/templates/enum.go.tmpl","internal/generator/templates/bitmask.go.tmpl","ztype/array_encode.go"],
 [("encode templates","internal/generator/templates/encode.go.tmpl"),("array length prefixes and traits","ztype/array_encode.go, ztype/array_traits.go")])
p("C05","Packed arrays are lossless and follow the delta-packing format",
 "Every array declared packed, of scalars, enums, bitmasks, structs, choices or unions, nested to any depth, decodes to exactly the elements that were encoded, for every sequence of in-range elements including extreme and alternating values. The bits produced are those of the zserio delta-packing format (descriptor, first element, deltas of the announced width), falling back to plain storage exactly when packing would not be smaller. Fields that cannot be delta packed keep their plain form inside packed elements.",
 ["programs","inputs"],"All packable element types and packed compounds times element sequences of length 0..N (constant, monotone, zig-zag, full-range, single outlier, random).",
 "Tests use five fixed short arrays; sign changes, 63/64-bit deltas, nested arrays, optional fields and unions inside packed compounds are not reached.",
 ["ztype/delta_context.go","ztype/packed_array_traits.go","ztype/object_array_traits.go","ztype/array_encode.go","ztype/object_array_encode.go","packing_context_node.go","internal/generator/templates/packing_context_encode.go.tmpl","internal/generator/templates/packing_context_decode.go.tmpl","internal/generator/templates/packing_context_init.go.tmpl","internal/generator/templates/packing_context_create.go.tmpl"],
 [("delta context","ztype/delta_context.go"),("packed compound templates","internal/generator/templates/packing_context_*.go.tmpl")])
p("C06","The announced bit size equals the bits actually written",
 "For every generated type, value and starting bit position, the bit size an object announces for that position equals the number of bits encoding it there actually writes. This includes strings, bytes, extern data, arrays (packed or not), alignment and optional fields.",
 ["programs","inputs"],"Schemas times values times all start positions 0..63 (quick: modulo-8 representatives plus alignments).",
 "No test compares announced sizes of generated types with what was written.",
 ["internal/generator/templates/bitsizeof.go.tmpl","internal/generator/templates/builtin_bitsizeof.go.tmpl","internal/generator/templates/packing_context_bitsize.go.tmpl","ztype/array.go","ztype/object_array.go","ztype/array_traits.go","ztype/delta_context.go"],
 [("size templates","internal/generator/templates/bitsizeof.go.tmpl"),("array size","ztype/array.go, ztype/object_array.go")])
p("C07","No encode failure goes unnoticed",
 "If the underlying writer fails at any point while an object is encoded, or at the final flush, encoding reports an error that carries the writer's error. If a value cannot be represented by its schema type (out of range for a bit field, variable-length integer or varsize, wrong length for a fixed-size array, mismatching bytes/extern length, undefined union choice or choice selector), encoding reports an error instead of emitting bytes that decode to something else.",
 ["fault_sequences","inputs"],"Every schema type and value times every writer operation as the failing one; and single-field mutations of valid values to out-of-range ones.",
 "Tests never make a writer fail and never encode an unrepresentable value through generated code.",
 ["ztype/array_encode.go","ztype/object_array_encode.go","ztype/object_array_traits.go","ztype/packed_array_traits.go","ztype/bits_encode.go","internal/generator/templates/encode.go.tmpl","marshal.go","zstream/writer.go"],
 [("error propagation in array engines","ztype/array_encode.go, ztype/object_array_encode.go"),("length check of fixed arrays","internal/generator/templates/encode.go.tmpl")])
p("C08","Truncated or failing input is always reported",
 "Decoding an encoding that has been cut off before its last bit, at any byte, reports an error and never returns a value as if it had been complete. If the underlying reader fails at any point, decoding reports that failure.",
 ["fault_sequences","inputs"],"Every schema type and value times every truncation point and every reader operation as the failing one.",
 "Tests only decode complete inputs.",
 ["ztype/array_decode.go","ztype/object_array_decode.go","ztype/delta_context.go","ztype/string_decode.go","ztype/bytes_decode.go","ztype/extern_decode.go","internal/generator/templates/decode.go.tmpl","zstream/reader.go"],
 [("error propagation on read","ztype/delta_context.go, ztype/array_decode.go")])
p("C09","Arbitrary input cannot crash, hang or exhaust the decoder",
 "Decoding any byte string whatsoever into any generated type, and calling the runtime's decoding functions on any input, returns a value or an error: it never panics and always terminates. Memory and time stay proportional to the input that is really there, however large the lengths are that the input announces, except for elements that the format itself encodes in no bits at all.",
 ["inputs","programs"],"All generated types times random bytes, mutated valid encodings, and hand-crafted huge lengths, widths and counts.",
 "Tests decode only well-formed inputs.",
 ["ztype/array_decode.go","ztype/object_array_decode.go","ztype/string_decode.go","ztype/bytes_decode.go","ztype/extern_decode.go","ztype/bits_decode.go","ztype/varuint_decode.go","internal/generator/templates/decode.go.tmpl"],
 [("length prefixes read from input","ztype/string_decode.go, ztype/array_decode.go, ztype/bytes_decode.go, ztype/extern_decode.go")])
p("C10","Independent objects can be encoded and decoded concurrently",
 "Encoding, decoding and sizing independent objects from any number of goroutines is free of data races, deadlocks and panics, under every schedule. Each operation gives the same result as it would alone.",
 ["schedules"],"All interleavings of concurrent marshal/unmarshal/bit-size calls on distinct objects of the same and different generated types, and first use of shared runtime state.",
 "Tests are single-goroutine and run without the race detector.",
 ["ztype/array_traits.go","ztype/delta_context.go","marshal.go","zstream/reader.go","zstream/writer.go"],
 [("process-wide trait cache","ztype/array_traits.go")])
p("C11","Encoding and decoding are pure: no aliasing, no leftovers, no drift",
 "Encoding or sizing an object leaves the value it stands for unchanged and gives the same result every time. What decoding returns depends only on the bytes and the type: not on earlier decodes, on what the target object held before, or on how the source delivers its bytes. Decoded values do not share memory with the input or with other decoded values, so later changes to one do not show in another.",
 ["histories","inputs"],"All sequences of encode/decode/size calls on fresh and reused objects, with sources delivering one byte at a time, and with input buffers overwritten afterwards.",
 "Tests use each object once, from a complete in-memory source.",
 ["ztype/string_decode.go","ztype/bytes_decode.go","ztype/extern_decode.go","ztype/array_decode.go","internal/generator/templates/decode.go.tmpl","internal/generator/templates/encode.go.tmpl","internal/generator/templates/union.go.tmpl"],
 [("decode into the target object","internal/generator/templates/decode.go.tmpl"),("byte buffers","ztype/bytes_decode.go")])
p("C12","Selectors, parameters, conditions and indexes pick the right fields",
 "A choice stores exactly the field of the case its selector names (any of several case labels, or the default), a union exactly the field of its tag, a conditional field exactly when its condition holds, and an array exactly as many elements as its length expression says; parameters and the element index reach each nested object with the value the schema's argument expression has at that place. A selector or tag for which the schema defines nothing is an error on encoding and decoding.",
 ["programs","inputs"],"Schemas with choices (integer, enum, bitmask and bool selectors, several labels per case, default, empty cases), unions, conditions, length expressions, nested parameters and @index, times every selector value.",
 "One schema with one parameterised array is tested; choices and unions are not.",
 ["internal/generator/templates/choice.go.tmpl","internal/generator/templates/union.go.tmpl","internal/generator/templates/encode_compound_parameters.go.tmpl","internal/generator/templates/decode_compound_parameters.go.tmpl","internal/generator/expression.go","internal/ast/choice.go","internal/ast/union.go"],
 [("choice switch","internal/generator/templates/choice.go.tmpl"),("parameter passing","internal/generator/templates/decode_compound_parameters.go.tmpl")])
p("C13","Expressions mean what the zserio language says",
 "Every constant, enum value, initial value, array length, condition, bit width and function of a schema evaluates, in the generator and in the generated code alike, to the value the zserio expression language gives it: its operators, precedence and associativity, integer and floating-point arithmetic, comparisons, ternary, lengthof, valueof, numbits, isset, and references to fields, parameters, constants, enum items and other functions.",
 ["programs","inputs"],"Random well-typed expressions over literals, constants, fields, parameters, enum and bitmask values, placed in constants and functions, times field values; compared with an independent evaluator of unbounded precision.",
 "Tests evaluate about twenty constant expressions and four functions.",
 ["internal/ast/expression.go","internal/generator/expression.go","internal/visitor/visitor.go","internal/ast/const.go"],
 [("constant folding","internal/ast/expression.go"),("translation to Go","internal/generator/expression.go")])
p("C14","Enums and bitmasks keep their values, names and database form",
 "Every enum item and bitmask value has in the generated code the value the schema gives it, explicitly or implicitly; items, names and values map to each other one-to-one in declaration order, text and SQL conversions there and back give the same item, and anything that is no item is refused or visibly marked, never mapped to some other item. Decoding a number that is no item of the enum does not silently yield an item.",
 ["programs","inputs"],"Enums and bitmasks over every base type with explicit, implicit, negative, sparse and expression values, times all items, non-items, and all database value kinds.",
 "Tests cover one enum of a few items.",
 ["internal/ast/enum.go","internal/ast/bitmask.go","internal/generator/templates/enum.go.tmpl","internal/generator/templates/bitmask.go.tmpl"],
 [("implicit numbering","internal/ast/enum.go, internal/ast/bitmask.go"),("text and SQL conversions","internal/generator/templates/enum.go.tmpl")])
p("C15","Generation is deterministic",
 "For the same schema set and options, generation produces the same files with identical content every time, independent of the order in which the schema files are given, of whether files or their directory are named, of the working directory, and of files that other packages' generation left behind.",
 ["programs","configurations","schedules"],"Schema sets (single and multi package, templates, imports) times repeated process runs (fresh map-iteration order each), permutations of the input list, and working directories.",
 "Tests generate each schema once and never compare two runs.",
 ["internal/model/model.go","internal/model/transform.go","internal/generator/gen.go","internal/ast/package.go","internal/ast/scope.go"],
 [("template instantiation and symbol resolution","internal/model/transform.go, internal/ast/scope.go"),("package emission","internal/generator/gen.go")])
p("C16","Accepted schemas yield Go code that compiles and is complete",
 "Whenever the generator reports success, the files it has written form Go packages that compile with each other without any manual change, contain every type, constant and function of the schema under its documented Go name, and are formatted. This holds with and without formatting and SQL support.",
 ["programs","configurations"],"All accepted schemas of the corpus and of the seeded random schema generator, all option combinations.",
 "Only a dozen schemas are compiled in tests.",
 ["internal/generator/gen.go","internal/generator/types.go","internal/generator/funcs.go","internal/generator/strip_imports.go","internal/generator/templates/package.go.tmpl"],
 [("templates and import pruning","internal/generator/strip_imports.go, internal/generator/templates")])
p("C17","Invalid schemas are refused cleanly",
 "A schema that is malformed, or that refers to unknown types, symbols or imports, redefines a name, contains a cyclic definition, gives a wrong number of arguments or parameters, or has a constant expression without a value, makes the generator exit with a non-zero status and a message. It never panics or hangs, and it never reports success or writes output for a schema that it could not understand.",
 ["programs","inputs"],"Mutations of valid schemas (token deletion, duplication, replacement, truncation), a catalogue of semantic errors, and arbitrary bytes.",
 "There are no negative tests for the generator.",
 ["internal/model/package.go","internal/model/model.go","internal/model/transform.go","internal/visitor/visitor.go","internal/ast/package.go","internal/ast/scope.go","internal/ast/expression.go","internal/cli/generate.go"],
 [("syntax error handling","internal/model/package.go"),("symbol resolution","internal/ast/scope.go, internal/model/transform.go")])
p("C18","Output goes where it belongs, or the run fails leaving good files intact",
 "Generation writes exactly one file set per schema package below the output directory, at the place that the package name and root package determine, with paths within the requested length limit, distinct for distinct packages, and nothing anywhere else; asking for one package on standard output gives the code that would be in its file. If a file cannot be written, whatever the reason, the run reports failure, and a previously generated good file is not destroyed by a failed run.",
 ["configurations","fault_sequences"],"Package name sets (deep, long, case-colliding, suffix-colliding) times path-length limits, modes, pre-existing files, unwritable, full or read-only targets.",
 "Tests call an internal path helper with a few names.",
 ["internal/generator/gen.go","internal/cli/generate.go","internal/model/model.go"],
 [("path shortening and file writing","internal/generator/gen.go"),("schema discovery","internal/model/model.go")])
p("C19","Subtypes, imports and templates are transparent",
 "Replacing a type by a subtype of it, a template instantiation by the struct written out with its arguments, a constant by its value, or moving definitions to an imported package (by wildcard or single-symbol import, or qualified name) changes neither the bytes that any value encodes to nor what they decode to. Every instantiation of a template, direct, through a subtype or by an instantiate declaration, in any package and order, behaves by its own arguments alone.",
 ["programs","inputs"],"Random schemas with their rewritten equivalents, times values; templates instantiated with several argument lists in several packages.",
 "One template schema and one two-level subtype are tested, without comparing to a plain equivalent.",
 ["internal/model/transform.go","internal/ast/scope.go","internal/ast/type_reference.go","internal/generator/types.go"],
 [("template instantiation","internal/model/transform.go"),("subtype resolution","internal/generator/types.go, internal/ast/scope.go")])
p("C20","Default values are loaded as declared",
 "Loading the defaults of an object sets every field that has an initial value in the schema to exactly that value, recursively in nested compounds, and changes no field without one; the result encodes and decodes like any other value. Loading twice equals loading once.",
 ["programs","inputs"],"Schemas with initial values of every type (integers, bit fields, floats, strings, bools, enums, bitmasks, constants and expressions), nested compounds and subtypes, loaded into zero and non-zero objects.",
 "No test looks at default values.",
 ["internal/generator/templates/default_values.go.tmpl","internal/generator/expression.go"],
 [("default value template","internal/generator/templates/default_values.go.tmpl")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
