#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements are reviewable)."""
import json, os
RT='crates/zserio/src/'
G='crates/zserio-rs-build/src/internal/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
      why_tests_cant=why,anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))

p('P01','Scalar values survive a write/read round trip at any bit position',
 'For every built-in scalar type (fixed-width and bit-field integers, variable-length integers, bool, floats, string, bytes, extern), a representable value that is written successfully at any bit position reads back as exactly the same value. The read consumes exactly the bits the write produced, and data written before and after it in the same stream is unaffected.',
 ['inputs'],'all representable values of every scalar type x all bit offsets x all neighbouring data',
 'Unit tests sample a handful of values per type, almost all of them at bit offset 0; the value space is 2^64 and every offset changes the byte splitting.',
 [RT+'ztype/varint_encode.rs',RT+'ztype/varint_decode.rs',RT+'ztype/varuint_encode.rs',RT+'ztype/varuint_decode.rs',RT+'ztype/bits_encode.rs',RT+'ztype/bits_decode.rs',RT+'ztype/string_encode.rs',RT+'ztype/string_decode.rs',RT+'ztype/float_encode.rs',RT+'ztype/float_decode.rs',RT+'ztype/bytes_type.rs',RT+'ztype/extern_type.rs'],
 [('paired read_*/write_* functions per type',RT+'ztype/')],['return value of read_*; BitReader::position / BitWriter bit count'])

p('P02','Scalar encodings follow the zserio wire format bit for bit',
 'The bits produced for every built-in scalar value are exactly those the zserio encoding specifies: big-endian two\'s complement for fixed widths, canonical shortest form for variable-length integers, IEEE 754 for float32/float64, round-to-nearest-even half precision for float16, and length-prefixed payload for string, bytes and extern. Reading any specification-conformant encoding yields the value it denotes.',
 ['inputs'],'all values of every scalar type, all conformant encodings',
 'The comparison with the reference implementation uses a few fixed objects; length-class boundaries of the seven variable-length integer types and half-float rounding are only sampled.',
 [RT+'ztype/varint_encode.rs',RT+'ztype/varuint_encode.rs',RT+'ztype/bits_encode.rs',RT+'ztype/float_encode.rs',RT+'ztype/string_encode.rs',RT+'ztype/extern_type.rs',RT+'ztype/bytes_type.rs'],
 [('byte-count selection of variable-length integers',RT+'ztype/varint_encode.rs, varuint_encode.rs'),('half-precision conversion','half crate via '+RT+'ztype/float_encode.rs')],['bytes returned by BitWriter::data'])

p('P03','Decoding arbitrary bytes never panics, aborts or hangs',
 'Decoding any byte sequence (truncated, corrupted or adversarial) as any generated type, or as any built-in type or array, terminates and yields either a value or an error. It never panics, aborts, overflows, or reads outside the input. (Input for which an expression written in the schema has no value, such as a division by zero or an index past the end of an array, is outside this statement.)',
 ['inputs','fault_sequences'],'every byte string, every truncation point and bit flip of valid messages, every decodable type, through every reading entry point',
 'Tests decode well-formed data, plus a couple of truncations of two primitives; the failure points are every read in every generated type.',
 [RT+'lib.rs',RT+'ztype/string_decode.rs',RT+'ztype/extern_type.rs',RT+'ztype/bytes_type.rs',RT+'ztype/reader.rs',RT+'ztype/array.rs',RT+'ztype/array_traits/delta_context.rs',G+'generator/decode.rs',G+'generator/zunion.rs',G+'generator/zenum.rs',G+'generator/zchoice.rs'],
 [('Result propagation with ? at every read',G+'generator/decode.rs')],['outcome of zserio::from_bytes under catch_unwind, with a watchdog'])

p('P04','Decoder memory is bounded by input actually present, not by claimed lengths',
 'While decoding, memory that is reserved because of a length announced in the stream never exceeds what the data actually supplied justifies, plus per array the configured pre-allocation chunk (number of elements); elements that occupy no bits are bounded by the announced length only. Changing the chunk setting, including to 0 or a huge value, changes only reservation, never the decoded result.',
 ['inputs','configurations'],'all hostile length fields (string, bytes, extern, arrays, nested) x all chunk settings',
 'One unit test checks one array element type; strings, bytes, externs, parameterized-array loops and nested arrays have separate allocation sites, including generated ones.',
 [RT+'ztype/array.rs',RT+'ztype/reader.rs',RT+'ztype/string_decode.rs',RT+'ztype/bytes_type.rs',RT+'ztype/extern_type.rs',G+'generator/decode.rs'],
 [('capped Vec::reserve',RT+'ztype/array.rs: zserio_read'),('remaining-data check',RT+'ztype/reader.rs: read_bytes'),('generated capped reserve for parameterized arrays',G+'generator/decode.rs')],
 ['bytes requested from a counting global allocator during a decode'],
 [('array pre-allocation chunk','process-wide cap on initial element reservation',RT+'ztype/array.rs')])

p('P05','Predicted bit size equals the number of bits written',
 'For every encodable value of every generated type and every array, the reported bit size for a given start position is exactly the number of bits that encoding it from that position writes, both in plain and in packed encoding. The size of a part may depend on the start position only through alignment.',
 ['inputs'],'all types x all values x all start bit positions x {plain, packed}',
 'Size computation is a separate generated code path that encoding never consults, so round-trip tests cannot notice when it is wrong.',
 [G+'generator/bitsize.rs',RT+'ztype/array.rs',RT+'ztype/array_traits/',RT+'ztype/string_encode.rs',RT+'ztype/extern_type.rs',RT+'ztype/bytes_type.rs',RT+'ztype/alignment.rs'],
 [('zserio_bitsize / zserio_bitsize_packed of generated types',G+'generator/bitsize.rs'),('bitsize_of of array traits',RT+'ztype/array_traits/')],['zserio_bitsize result vs. BitWriter position delta'])

p('P06','Arrays of every element type round-trip in every array form',
 'An array of any element type (all built-in types and compound types), of any length including zero, in any form (fixed length, length-prefixed, packed or not, optional, element-aligned by indexed offsets) decodes to the same sequence of elements that was encoded, consuming exactly the bits written.',
 ['inputs'],'element types x array forms x lengths x element values x start bit positions',
 'Tests use short arrays of small positive integers and one packed struct; other element types, empty and extreme-valued packed arrays are not exercised.',
 [RT+'ztype/array.rs',RT+'ztype/array_traits/',G+'generator/array.rs',G+'generator/encode.rs',G+'generator/decode.rs',G+'generator/packed_contexts.rs'],
 [('Array::zserio_write / zserio_read',RT+'ztype/array.rs'),('array traits',RT+'ztype/array_traits/')],['decoded vector, reader position'])

p('P07','Packed arrays use the specified delta encoding, only when it pays off',
 'A packed array of integers, enums, bitmasks or compounds is encoded with exactly the zserio delta-packing descriptor, delta width and deltas: packing is used precisely when it is smaller than storing all elements plainly, so a packed column never takes more than one descriptor bit more than its plain form. Elements that are not delta-packable inside packed arrays (bool, float, string, bytes, extern) keep their plain encoding.',
 ['inputs'],'all sequences of element values, for every packable element type and for every field inside packed compounds',
 'The packing decision depends on the whole sequence (max delta, first element size, count, 62-bit limit, sign crossings); tests cover two short sequences.',
 [RT+'ztype/array_traits/delta_context.rs',RT+'ztype/array_traits/object_array_trait.rs',RT+'ztype/array.rs',G+'generator/packed_contexts.rs',G+'generator/array.rs'],
 [('delta context init/finish/descriptor',RT+'ztype/array_traits/delta_context.rs'),('per-field packing contexts',G+'generator/packed_contexts.rs')],['bits written for packed arrays'],
 [('delta context','packed flag, delta width, previous element',RT+'ztype/array_traits/delta_context.rs')])

p('P08','Every generated type round-trips every valid value',
 'For every schema type the compiler accepts (structures with optional, conditional, aligned, offset and dynamically sized fields, choices, unions, enums, bitmasks, parameterized and templated types, nested to any depth) decoding what encoding produced yields an equal value. Absent optional and untaken conditional fields contribute no bits and stay absent.',
 ['inputs','programs'],'all schemas in the supported language x all valid values',
 'The round-trip tests fix about 20 schemas with one or two hand-written values each; the interaction of field attributes and nesting is combinatorial.',
 [G+'generator/zstruct.rs',G+'generator/zchoice.rs',G+'generator/zunion.rs',G+'generator/zenum.rs',G+'generator/zbitmask.rs',G+'generator/encode.rs',G+'generator/decode.rs'],
 [('generated zserio_read / zserio_write pair',G+'generator/')],['to_bytes then from_bytes, compared field by field'])

p('P09','Generated codecs are interchangeable with the zserio reference implementation',
 'For every schema both support, the bytes produced for a value equal the bytes the zserio reference implementation produces for that value, and each side decodes the other\'s bytes to the same value.',
 ['inputs','programs'],'all schemas in the common language subset x all valid values, both directions',
 'The comparison test serializes a few fixed objects; a symmetric encode/decode mistake is invisible to all round-trip tests.',
 [G+'generator/encode.rs',G+'generator/decode.rs',G+'generator/zchoice.rs',G+'generator/zunion.rs',G+'generator/packed_contexts.rs',RT+'ztype/'],
 [('field order, presence bits, alignment and length prefixes emitted by the code generator',G+'generator/encode.rs')],['bytes from zserio::to_bytes; values decoded from foreign bytes'])

p('P10','All encode/decode entry points agree and report I/O failures',
 'Encoding to a byte vector and to a writer produce the same bytes, and decoding from a slice, a reader or a file produce the same value or the same failure, however the reader or writer splits its transfers. Any I/O error, premature end of input, or short write surfaces as an error, never as success with missing data; data after the object is ignored, and the last partial byte is zero-padded.',
 ['inputs','fault_sequences'],'all values x all chunkings, interruptions and error positions of the underlying reader/writer',
 'Doc tests use one object with an ordinary file; fault points and chunkings are unbounded.',
 [RT+'lib.rs',RT+'error.rs'],[('write_all / read_to_end',RT+'lib.rs')],['result of to_bytes, to_writer, from_bytes, from_reader, from_file'])

p('P11','Values the wire format cannot represent are refused, never silently altered',
 'Encoding a value that its declared type cannot represent (an integer outside its bit width or variable-length range, a fixed-length array of the wrong length, a nested object whose parameters disagree with the enclosing object, a byte or bit length that disagrees with the payload) never succeeds with bytes that decode to something else. It is refused.',
 ['inputs'],'all unrepresentable values of every constrained type',
 'Tests encode valid values only.',
 [RT+'ztype/bits_encode.rs',RT+'ztype/varint_encode.rs',RT+'ztype/varuint_encode.rs',RT+'ztype/array.rs',RT+'ztype/extern_type.rs',RT+'ztype/bytes_type.rs',G+'generator/encode.rs'],
 [('range checks in writers',RT+'ztype/varuint_encode.rs'),('parameter and length assertions',G+'generator/encode.rs')],['outcome of encoding, and decode of whatever was produced'])

p('P12','Alignment and offset markers put fields exactly where the schema says',
 'A field declared with alignment starts at the next multiple of its alignment in bits, a field with an offset starts byte-aligned, and every element of an array with an indexed offset starts byte-aligned, whatever precedes it; padding is zero on write and skipped on read, and no padding is added for a field that is absent. Decoding resumes at exactly the same position.',
 ['inputs'],'all alignment values x all start positions x presence of optional and conditional fields',
 'Tests have one alignment structure and one offset structure with fixed preceding content.',
 [RT+'ztype/alignment.rs',RT+'ztype/array.rs',G+'generator/encode.rs',G+'generator/decode.rs',G+'generator/bitsize.rs',G+'generator/index_offsets.rs'],
 [('align_writer / align_reader / align_bitsize',RT+'ztype/alignment.rs')],['bit position of each field in the produced stream'])

p('P13','Code generation is deterministic',
 'Compiling the same set of schema files always produces the same set of output files with the same contents, independent of process, hash seed, directory enumeration order, location of the schemas and previous contents of the output directory.',
 ['programs','configurations'],'all schema sets x repeated runs, file orders and locations',
 'A test run compiles once; iteration order of hash maps varies per process.',
 [G+'model.rs',G+'generator/package.rs',G+'generator/mod_file.rs',G+'generator/file_generator.rs',G+'compiler/template_instantiation.rs',G+'compiler/symbol_scope.rs'],
 [('sorted module output',G+'generator/package.rs'),('hash-map keyed packages',G+'model.rs')],['bytes of all generated files'])

p('P14','Schema expressions evaluate to the value zserio semantics assign',
 'Every expression the schema language allows (in functions, optional clauses, array lengths, bit widths, parameters, selectors) evaluates in generated code to the value given by zserio operator precedence and integer, boolean, string, enum and bitmask semantics, for all field values for which that value is defined.',
 ['inputs','programs'],'all expressions of the supported grammar x all field values',
 'Tests evaluate around ten fixed expressions with one value assignment each.',
 [G+'ast/expression.rs',G+'generator/expression.rs',G+'generator/function.rs',G+'ast/evaluate_mixing_native_types.rs',G+'visitor.rs'],
 [('expression evaluation and type mixing',G+'ast/expression.rs'),('expression code generation',G+'generator/expression.rs')],['return values of generated functions; presence of conditional fields; array lengths'])

p('P15','Enum, bitmask and constant values are those the schema defines',
 'Each enum item has its explicit value or one more than its predecessor (starting at zero), each bitmask item has its explicit value or the next free power of two, and each constant has the value of its defining expression, for all literal notations (decimal, hexadecimal, octal, binary) and all underlying types.',
 ['programs'],'all enum, bitmask and constant declarations',
 'Tests have a handful of declarations with small positive values.',
 [G+'ast/zenum.rs',G+'ast/zbitmask.rs',G+'ast/zconst.rs',G+'generator/zenum.rs',G+'generator/zbitmask.rs',G+'generator/zconst.rs',G+'visitor.rs'],
 [('value assignment',G+'ast/zenum.rs, ast/zbitmask.rs')],['numeric value and wire value of every generated item and constant'])

p('P16','numbits and bit-length helpers compute the exact mathematical value',
 'The number-of-bits operator returns the minimum number of bits needed to distinguish the given number of values (ceil of log2, with 0 and 1 handled as zserio specifies), and the bit-length helper returns the position of the highest set bit, for every argument of every supported integer type.',
 ['inputs'],'all arguments up to 2^64-1, all integer types',
 'Unit tests check a few values.',
 [RT+'numbits.rs'],[('numbits, bit_length',RT+'numbits.rs')],['return values'])

p('P17','Embedded objects in extern and bytes fields are carried verbatim',
 'An object wrapped as an extern value keeps exactly its encoded bits and bit length through encoding, decoding and unwrapping, so that the unwrapped object equals the original; the content of bytes and extern fields is carried verbatim up to its declared length, independent of alignment, and bits beyond an extern\'s bit length are not part of the value.',
 ['inputs'],'all payload lengths in bits x contents x stream positions',
 'Tests use one or two byte-sized payloads.',
 [RT+'ztype/extern_type.rs',RT+'ztype/bytes_type.rs'],[('extern read/write',RT+'ztype/extern_type.rs')],['decoded payload and bit length; stream position afterwards'])

p('P18','Encoding and decoding are pure: results do not depend on threads or history',
 'Encoding a given value and decoding given bytes yield the same result in any thread, with any number of concurrent encoders and decoders, any concurrent change of the pre-allocation setting, and regardless of what was encoded or decoded before (including failed attempts). Re-encoding the same object gives the same bytes, and encoding or sizing never changes the object.',
 ['schedules','histories'],'all interleavings of concurrent encode/decode/configure calls and all call histories',
 'The tests run single-threaded (--test-threads 1) and each performs one encode and one decode.',
 [RT+'lib.rs',RT+'ztype/array.rs'],[('atomic chunk setting',RT+'ztype/array.rs'),('per-call contexts',RT+'ztype/array.rs')],['per-thread results vs. sequential oracle, under a data-race detector'],
 [('array pre-allocation chunk','the only process-wide mutable state',RT+'ztype/array.rs')])

p('P19','No undefined behaviour, leak or integer overflow on any path',
 'Running the runtime and generated code on valid, hostile and extreme inputs involves no undefined behaviour (out-of-bounds or uninitialized access, data race, invalid value) and no silently wrapped or panicking arithmetic; results are the same in checked and unchecked (release) builds.',
 ['inputs','schedules','configurations'],'all inputs x build profiles',
 'Tests run in one profile without sanitizers.',
 [RT,G+'generator/'],[('safe Rust; checked arithmetic in dev profile',RT)],['Miri / AddressSanitizer / overflow-check reports; outcome digests of checked and release builds'])

p('P20','Undefined discriminants and malformed text are rejected',
 'Decoding an enum value, union tag, or other discriminant that the schema does not define, or a string that is not valid UTF-8, or an array whose data ends early, reports an error; it never produces a default or neighbouring value. Everything the format allows (all bitmask bit patterns, all defined items) is accepted.',
 ['inputs'],'all discriminant values outside the declared sets, for all schemas; all invalid UTF-8 sequences',
 'Only valid discriminants are tested.',
 [G+'generator/zenum.rs',G+'generator/zunion.rs',G+'generator/zchoice.rs',RT+'ztype/string_decode.rs'],
 [('TryFrom for enums',G+'generator/zenum.rs'),('union selector conversion',G+'generator/zunion.rs'),('UTF-8 check',RT+'ztype/string_decode.rs')],['result of decoding; agreement with an independent decoder on accept/reject'])

p('P21','Decoded values re-encode to a stable canonical form',
 'Whatever bytes were decoded successfully, encoding the resulting value succeeds, and decoding that encoding yields the same value again; for bytes that were themselves produced by an encoder, re-encoding reproduces them exactly.',
 ['inputs','histories'],'all accepted byte strings (valid, mutated, non-canonical) of all types',
 'Tests never re-encode decoded foreign or non-canonical data.',
 [RT+'lib.rs',G+'generator/encode.rs',G+'generator/decode.rs',RT+'ztype/varuint_decode.rs',RT+'ztype/varint_decode.rs'],
 [('encode/decode pair',G+'generator/')],['bytes after decode-encode-decode'])

p('P22','Parameters reach nested objects with the values the schema computes',
 'After decoding, every parameterized nested object and array element carries exactly the argument values computed from the enclosing object (field values, enclosing parameters, function results, indexed elements), and all its conditions, lengths and selectors were evaluated with them; encoding an object whose nested parameters differ is refused.',
 ['inputs','programs'],'all parameterized schemas (nesting, index operator, compound and bitmask parameters, templates) x values',
 'Tests have five fixed schemas with one value each.',
 [G+'generator/pass_parameters.rs',G+'generator/decode.rs',G+'generator/encode.rs',G+'ast/parameter.rs'],
 [('parameter initialisation when reading; assertion when writing',G+'generator/decode.rs, encode.rs')],['parameter fields of decoded objects'])

p('P23','Type and symbol references resolve to the declaration zserio scoping selects',
 'A type, constant, enum or bitmask reference resolves to the declaration in the same package if there is one, otherwise to the one made visible by the package\'s imports, regardless of equally named declarations in unrelated packages, declaration order, or file order.',
 ['programs'],'all sets of packages with overlapping names and import graphs',
 'Tests have two fixed cases of ambiguous names.',
 [G+'compiler/symbol_scope.rs',G+'compiler/resolve_types.rs',G+'compiler/fundamental_type.rs',G+'ast/package.rs'],
 [('resolve_symbol',G+'compiler/symbol_scope.rs')],['wire format and value range of fields whose types have ambiguous names'])

p('P24','Subtypes, templates and instantiation names are transparent on the wire',
 'Replacing a type by a subtype of it, or a template instantiation by the hand-expanded type, or an inline instantiation by a named one, changes neither the encoded bytes nor what is accepted when decoding.',
 ['programs','inputs'],'all template and subtype uses x values',
 'Tests do not compare expanded and templated schemas.',
 [G+'compiler/template_instantiation.rs',G+'compiler/fundamental_type.rs',G+'generator/subtype.rs',G+'compiler/resolve_types.rs'],
 [('template instantiation',G+'compiler/template_instantiation.rs'),('fundamental type lookup',G+'compiler/fundamental_type.rs')],['bytes of paired schemas for equal values'])

p('P25','Every accepted schema yields code that compiles',
 'For every schema of the supported language that the compiler accepts, the generated Rust code compiles against the runtime crate without modification and exposes every declared type, field, item, function and constant.',
 ['programs'],'all schemas of the supported language, all combinations of field attributes and names',
 'Only the fixed test schemas are ever compiled.',
 [G+'generator/',G+'model.rs'],[('code generator',G+'generator/')],['exit status of rustc on generated code'])

p('P26','Invalid schemas are refused',
 'A schema that violates the language (syntax error, reference to an undefined type, symbol or package, unknown enum or bitmask item, cyclic constant definition) in a declaration that code is generated for (services, publish/subscribe and SQL declarations are only parsed) is refused: the compiler fails instead of producing code, and it terminates.',
 ['programs'],'all single-fault mutations of valid schemas in the listed classes',
 'No test feeds the compiler an invalid schema.',
 [G+'parser',G+'visitor.rs',G+'compiler/symbol_scope.rs',G+'ast/expression.rs',G+'model/package.rs'],
 [('panic on unresolved symbol',G+'compiler/symbol_scope.rs')],['exit status of the compiler and generated files'])

p('P27','The command line tool and the library generate the same, contained output',
 'For the same schema directory the command line tool and the library interface write identical files, only inside the requested output directory, without touching the schemas; a root prefix changes only the module paths (and whether the top file is lib.rs or mod.rs), never behaviour, and files that are not schemas are ignored.',
 ['programs','configurations'],'all schema sets x output locations x root prefixes',
 'No test runs the command line tool.',
 ['crates/zserio-rs-build/src/main.rs',G+'model.rs',G+'generator/file_generator.rs',G+'generator/model.rs',G+'generator/mod_file.rs'],
 [('file generator',G+'generator/file_generator.rs')],['files created, modified or removed by a run'])

p('P28','A compilation that could not be completed is never reported as successful',
 'If a file operation fails while the compiler (command line or library) reads the schemas or writes the output - the schema directory or a schema cannot be listed, opened or read, a schema is not valid text, an output directory or file cannot be created or written - the compiler fails. It ends with success only when the output directory holds the complete output; reads and writes that transfer only a part of the data are continued.',
 ['faults','programs'],'all schema sets x file operations x error codes',
 'Tests run the compiler only where every file operation succeeds.',
 [G+'model.rs',G+'model/package.rs',G+'generator/file_generator.rs','crates/zserio-rs-build/src/main.rs'],
 [('file generator',G+'generator/file_generator.rs')],['exit status and output files of runs in which one file operation fails'])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import re
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    assert x['statement'].count('. ')<=2,x['id']
    for a in x['anchors']['files']:
        assert os.path.exists('/repo/'+a),a
