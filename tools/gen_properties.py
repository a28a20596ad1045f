#!/usr/bin/env python3
"""Writes properties.jsonl (the single source of the property texts)."""
import json, os
VM="src/vm/vm_exec.c"; VI="src/vm/vm_internal.h"; VV="src/vm/vm_verify.c"; H="include/concordia.h"
CP="src/compiler/cnd_parser.c"; CU="src/compiler/cnd_utils.c"; CC="src/compiler/cndc.c"; CL="src/compiler/cnd_lexer.c"; CF="src/compiler/cnd_fmt.c"
JB="src/cli/json_binding.c"
P=[]
def add(id,title,statement,over,qtext,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or ["public C API"],hook_needed=None)))
add("C01","Encode then decode returns the same values",
 "For every schema the compiler accepts and every set of field values the schema allows, encoding succeeds and decoding the produced bytes with the same compiled schema succeeds and reports the same value for every field, in the same order. Re-encoding the decoded values reproduces the same bytes.",
 ["programs","inputs"],"every accepted schema built from all language features, every admissible value assignment",
 "Tests fix a few dozen schemas with one value each; the guarantee ranges over all combinations of features and all values.",
 [VM,VI,CP,CU,CC],[("encode/decode symmetric handling per field","src/vm/vm_exec.c cnd_execute"),("bytecode emission","src/compiler/cnd_parser.c parse_field")])
add("C02","Encoded bytes are exactly the layout the schema declares",
 "For every accepted schema and admissible values, the bytes produced by encoding are exactly those the language definition prescribes: field order, width, byte order, bit packing and padding, length prefixes, terminators, constants, computed fields and checksums, and nothing else. The reported size equals the number of bytes prescribed.",
 ["programs","inputs"],"every accepted schema and admissible value assignment, compared byte for byte with an independent encoder working from the schema text",
 "A round trip cannot see a layout that is wrong in both directions, and the tests compare bytes for a handful of single-feature schemas only.",
 [VM,VI,CP,CU,CC],[("field emission","src/compiler/cnd_parser.c"),("primitive and bit writers","src/vm/vm_internal.h write_*")])
add("C03","Decoding any bytes gives exactly what the schema says they mean",
 "For every accepted schema and every byte string, decoding reports exactly the field values the language definition assigns to those bytes, in schema order and under the schema's field names, and ends with success if and only if the bytes are complete and satisfy every constraint. When it fails, the error names the first violated condition and no field beyond it is reported.",
 ["programs","inputs"],"every accepted schema and every byte string: valid, mutated, truncated, extended and random",
 "Tests decode hand-written valid messages and a few single-byte corruptions.",
 [VM,VI,CP],[("decode side of every instruction","src/vm/vm_exec.c cnd_execute")])
add("C04","Short buffers are rejected and never overrun",
 "Encoding into a buffer smaller than the message ends with the out-of-bounds error without touching any byte outside the buffer, and into a buffer of at least the message size it succeeds and leaves the bytes after the message untouched. Decoding a message cut at any point before its end (where the missing part is not optional) ends with the out-of-bounds error, reporting only fields that were completely present.",
 ["programs","inputs","fault_sequences"],"every accepted schema and value assignment, every buffer length from zero to beyond the message size, including cuts inside bit-packed regions, prefixes, strings and arrays",
 "Tests check a few too-short buffers for single primitives; the cut point ranges over every byte of every message shape.",
 [VM,VI],[("cursor bounds checks","src/vm/vm_exec.c HANDLE_PRIMITIVE, HANDLE_ARRAY_PRE, HANDLE_STRING_PRE"),("bit reader/writer bounds","src/vm/vm_internal.h read_bits, write_bits")])
add("C05","Hostile bytecode or data never causes memory-unsafe behaviour",
 "Executing any bytecode, verified or not, over any data buffer in either direction with any well-behaved host only reads the bytecode and the data buffer within their bounds, only writes the data buffer within its bounds, and never crashes: it returns one of the documented status codes unless the bytecode itself loops. Pointers passed to the host for fixed-size values are valid for the size of that value.",
 ["programs","inputs"],"every byte string taken as bytecode (random, structured, and mutated compiler output), every data buffer and length, both modes",
 "The repository's fuzzer driver is not run by the tests, which execute about a hundred fixed instruction sequences.",
 [VM,VI,"src/tools/vm_fuzzer.c"],[("bounds checks per instruction","src/vm/vm_exec.c cnd_execute"),("jump target checks","src/vm/vm_exec.c OP_JUMP, OP_SWITCH, OP_SWITCH_TABLE")])
add("C06","Decoding is read-only and encoding is a pure function of the values",
 "Decoding never modifies the input buffer. The bytes produced by encoding depend only on the compiled schema and the host's values, not on what the output buffer contained before, how much larger than the message it is, or which messages the same context or program processed earlier (including ones that failed half way).",
 ["programs","inputs","histories"],"every accepted schema and value assignment, every prior buffer content, every sequence of earlier successful and failing operations on the same program and context",
 "Tests use zeroed buffers and fresh contexts, so stale bytes or leftover state cannot show.",
 [VM,VI],[("context initialisation","src/vm/vm_exec.c cnd_init"),("bit writer read-modify-write","src/vm/vm_internal.h write_bits")])
add("C07","Constants, ranges, enums and booleans are enforced in both directions",
 "A field with a constant or match constraint is always written as that constant and accepted on decode only if it carries exactly that value; a range-constrained field is accepted, on encode and on decode, exactly when its value lies within the inclusive bounds compared in the field's own type; an enum field exactly when its value is one of the declared ones; a boolean exactly when it is 0 or 1. Any violation ends the operation with the validation error.",
 ["programs","inputs"],"every numeric type including signed, 64-bit and floating types, every bound and constant, every enum (any underlying type, sparse, negative values), every value around the bounds, both byte orders",
 "Tests try one or two values per constraint on few types; boundaries, signedness and widths multiply.",
 [VM,CP,CU],[("range, const and enum checks","src/vm/vm_exec.c OP_RANGE_CHECK, OP_CONST_CHECK, OP_ENUM_CHECK"),("constraint emission","src/compiler/cnd_parser.c emit_range_check")])
add("C08","Checksums match the standard algorithm and detect corruption",
 "A checksum field is written as the CRC, with the declared width, polynomial, initial value, final xor and reflections (in whatever order the decorators are given), of all message bytes before it, and decoding accepts it exactly when it matches. Any corruption of the covered bytes that the declared CRC detects, such as any single-bit flip, makes decoding fail with the checksum error.",
 ["programs","inputs","fault_sequences"],"every CRC parameterisation, message length, position of the checksum, byte order, and every single-bit or burst corruption",
 "Tests check the two default parameterisations on one fixed message each.",
 [VM,CP],[("CRC computation","src/vm/vm_exec.c calc_crc"),("decorator parsing","src/compiler/cnd_parser.c crc decorators")])
add("C09","Value transforms convert as declared and invert within one raw step",
 "On decode a transformed field reports the declared function (linear scale/offset, integer add/sub/mul/div, polynomial, piecewise-linear spline) of its raw wire value. On encode it writes the raw value whose transformed value is the one given, exactly where the arithmetic is exact and otherwise within one raw step, and encoding a decoded value restores its raw value (for functions with one inverse, within the spline's points); a transform applies to its own field only.",
 ["programs","inputs"],"every transform kind and parameters, every integer and float wire type, every raw value including extremes",
 "Tests use one parameter set and one value per transform.",
 [VM,CP],[("transform evaluation and inversion","src/vm/vm_exec.c vm_math_*"),("transform emission","src/compiler/cnd_parser.c")])
add("C10","Expressions evaluate according to their grammar",
 "Every expression in a computed field or condition evaluates to the value given by its written form: usual precedence and left associativity, parentheses, unary operators, 64-bit unsigned integer and double arithmetic, comparisons, logical operators, function calls and references to earlier fields. Division by zero and undefined mathematical arguments end with the arithmetic error, and evaluation never crashes.",
 ["programs","inputs"],"every well-formed expression over literals and earlier fields, and every value of those fields",
 "Tests evaluate about a dozen fixed expressions; operator combinations and nesting are unbounded.",
 [CP,VM],[("Pratt parser","src/compiler/cnd_parser.c parse_precedence and rules"),("stack machine","src/vm/vm_exec.c expression opcodes")])
add("C11","Conditionals and switches select exactly the declared branch",
 "An if/else chain processes exactly the first branch whose condition is non-zero, and a switch exactly the case equal to the discriminator, else the default, else nothing; processing then continues with the field that follows. This holds for any number, order, spacing and values of cases (dense, sparse, negative, 64-bit, enum), at any nesting, inside structs and arrays.",
 ["programs","inputs"],"every nesting of if and switch, every case set and every discriminator value",
 "Tests use a few two- or three-case switches and single ifs; the choice of dispatch table depends on the case set.",
 [CP,VM,CU],[("jump and table emission","src/compiler/cnd_parser.c parse_if, parse_switch"),("dispatch","src/vm/vm_exec.c OP_SWITCH, OP_SWITCH_TABLE, OP_JUMP_IF_NOT")])
add("C12","Arrays process exactly the declared number of elements",
 "A fixed, length-prefixed, count-referenced or to-end-of-data array processes exactly its element count, in order, for any element type (primitive, string, enum, struct, nested array within the depth limit) and any count including zero; for arrays with a count the host is told it before the elements, and after the last element of a non-empty array it is told the end (unless it took a byte array in bulk). An empty array leaves the fields that follow unaffected, whatever the element contains.",
 ["programs","inputs"],"every array kind, element type, nesting and count, with any surrounding fields",
 "Tests use small non-empty arrays of primitives; empty arrays of complex elements and nesting are barely touched.",
 [VM,CP],[("loop stack","src/vm/vm_exec.c loop_push, OP_ARR_END"),("skipping of empty bodies","src/vm/vm_exec.c skip_loop_body"),("byte array fast path","src/vm/vm_exec.c try_optimize_byte_array")])
add("C13","Strings keep their content, bound and framing",
 "A terminated string is written as its content cut to the declared maximum followed by one zero byte, and a prefixed string as its length in the declared prefix width and byte order followed by its content. Decoding hands the host exactly that content, never looks beyond the message, rejects a string whose terminator or content is missing, and continues at the byte after the string.",
 ["programs","inputs"],"every string content including empty, maximal and over-long, every maximum, prefix width and byte order, in arrays and structs, and every corrupted framing",
 "Tests use short strings far from the limits.",
 [VM,CP],[("string instructions","src/vm/vm_exec.c OP_STR_NULL, HANDLE_STRING_PRE")])
add("C14","Trailing optional fields may be absent, others may not",
 "When a message ends before a field marked optional (a number, boolean, enum, bit field, string or array), decoding succeeds and reports that field with its zero or empty value, and its constraints are not applied to other data; when the field is present it is decoded normally. Marking a field optional never changes how any other field is treated.",
 ["programs","inputs"],"every schema with trailing optional fields of every type, with constraints and transforms, and every cut of the message",
 "One test covers one missing optional byte.",
 [VM,CP],[("optional marker","src/vm/vm_exec.c OP_MARK_OPTIONAL, is_next_optional")])
add("C15","Resource limits are enforced with errors and execution terminates",
 "Array nesting up to eight levels works and deeper nesting is rejected with an error; expressions up to the evaluation-stack limit work and deeper ones end with the stack overflow error; neither corrupts other state. Execution of any compiled schema over any data terminates.",
 ["programs","inputs"],"every nesting depth of arrays of every kind, every expression depth, every data buffer",
 "Tests probe the array limit for one array kind and the expression limit for raw bytecode only.",
 [VM,H],[("loop and expression stack limits","include/concordia.h CND_MAX_LOOP_DEPTH, CND_MAX_EXPR_STACK; src/vm/vm_exec.c loop_push, stack_push")])
add("C16","The verifier accepts everything compiled and rejects malformed code",
 "The program verifier accepts the output of every successful compilation. It rejects bytecode that contains an unknown instruction, an instruction whose arguments run past the end, or a jump or switch target outside the program, reports the documented error for each, and itself never reads outside the program.",
 ["programs","inputs"],"every accepted schema; every truncation, opcode corruption and jump corruption of compiled programs; every byte string as bytecode",
 "Verifier tests use a handful of hand-assembled programs of two or three instructions.",
 [VV,H],[("linear instruction walk","src/vm/vm_verify.c cnd_verify_program")])
add("C17","The compiler survives any input text",
 "Compiling or formatting any file content, however malformed, terminates without crashing or memory errors, and reports success or failure through its return value; on failure it prints at least one error message and does not create an output file, and on success it creates one that loads.",
 ["inputs"],"every byte string as source, including token-level mutations of valid schemas, deep nesting, long identifiers and numbers, and malformed imports",
 "Error tests cover about twenty specific mistakes.",
 [CP,CL,CU,CC,CF],[("error handling","src/compiler/cnd_parser.c parser_error"),("lexer","src/compiler/cnd_lexer.c lexer_next")])
add("C18","Invalid schemas are rejected",
 "A schema that breaks a rule of the language is never compiled: missing or duplicate packet, duplicate struct, enum, field, enumerator or case, undefined type, struct, enum or enumerator, constants that do not fit their type, inverted ranges, decorators on types that do not support them, bit fields on non-integers, unaligned structs that do not end on a byte boundary, recursive structs, wrong checksum type, unknown decorators on fields. The corresponding schema without the mistake compiles.",
 ["programs"],"every accepted schema with one rule violation injected at any place",
 "Tests check each diagnostic in one minimal schema; a violation inside nested blocks, imports or after other constructs is not covered.",
 [CP,CU,CC],[("semantic checks","src/compiler/cnd_parser.c parse_field, parse_enum, parse_struct, parse_switch")])
add("C19","Every field is identified by its own name",
 "In a compiled schema every value exchanged with the host carries the key whose name is the field's declared name, qualified by the names of the enclosing struct fields joined with dots; references to earlier fields in conditions, switches, counts and expressions resolve to the same key as the field itself. Looking a key's name up gives the name and looking that name up gives the key back, names are unique, and unknown names or keys are reported as absent.",
 ["programs"],"every accepted schema including deep struct nesting, reuse of one struct under several fields, many fields, and unused names",
 "Tests look at a few key ids of one nested struct; renumbering after removal of unused names depends on the whole program.",
 [CC,CU,VM],[("string table compaction","src/compiler/cndc.c optimize_strings"),("prefixing","src/compiler/cnd_utils.c buf_append_with_prefix"),("lookup","src/vm/vm_exec.c cnd_get_key_name, cnd_get_key_id")])
add("C20","Splitting a schema into imported files does not change its meaning",
 "A schema whose struct and enum definitions are moved to imported files, in any import graph including repeated, nested, diamond-shaped and cyclic imports and relative paths, compiles to a program with the same behaviour as the single-file schema. A missing imported file, or an error inside one, makes compilation fail.",
 ["programs","configurations"],"every accepted schema and every distribution of its definitions over files and directories",
 "Tests cover one import, one cycle and one missing file.",
 [CP,CC],[("import handling","src/compiler/cnd_parser.c parse_import, resolve_path")])
add("C21","Only well-formed program images load, and lookups stay inside them",
 "Loading a program image succeeds only if it has the right signature and version and its string table and bytecode lie inside it; for any byte string, loading and any subsequent key or name lookup never read outside the image, and a rejected image is reported as an error. For an accepted well-formed image the program and every name are exactly those stored.",
 ["inputs"],"every byte string as image: compiled images, every truncation and field corruption of them, random bytes; every key and name",
 "Tests load a few valid images and one bad signature.",
 [VM,"src/cli/cli_helpers.c"],[("header checks","src/vm/vm_exec.c cnd_program_load_il")])
add("C22","Formatting preserves meaning and is idempotent",
 "Formatting any schema that compiles produces a schema that compiles to the same program, keeps every comment, and formatting the result again changes nothing. Formatting never alters a file in any other way than layout, and an unreadable file is reported as an error.",
 ["programs","inputs"],"every accepted schema in every layout of whitespace, line breaks and comments",
 "Tests compare two or three formatted snippets.",
 [CF,CL],[("token based formatter","src/compiler/cnd_fmt.c cnd_format_source")])
add("C23","The command line tool round-trips JSON through binary messages",
 "For every accepted schema and JSON object with a value for each of its fields, the encode command produces exactly the bytes the library produces for those values, and the decode command applied to them prints JSON with the same values under the same structure. A value that violates the schema, malformed JSON, or a corrupt message makes the command exit non-zero.",
 ["programs","inputs"],"every accepted schema and value assignment, including nested structs, arrays of structs and arrays, strings, 64-bit and negative numbers, empty arrays, and corrupt input files",
 "No test runs the command line tool's JSON conversion.",
 [JB,"src/cli/cmd_encode.c","src/cli/cmd_decode.c","src/cli/cli_helpers.c"],[("JSON callback","src/cli/json_binding.c json_io_callback")],["cnd encode / cnd decode processes"])
add("C24","Inspecting any program image is safe and complete",
 "The inspect command terminates normally on any file without memory errors; for a compiled schema it lists every string of the program and every instruction in order with its key, and whatever operand values it prints are those of the instruction, ending exactly at the end of the bytecode.",
 ["programs","inputs"],"every accepted schema's image, and every corruption of such images",
 "No test runs the inspect command.",
 ["src/cli/cmd_inspect.c","src/cli/cli_helpers.c"],[("disassembler","src/cli/cmd_inspect.c")],["cnd inspect process"])
add("C25","The language server answers every request in order and never crashes",
 "For any sequence of client messages the language server terminates normally at end of input without memory errors and writes only well-framed, valid JSON messages; each request gets exactly one response carrying the request's id, in order. Answers are about the document's current text (the open text, or else the file): diagnostics contain an error exactly when compiling that text fails, formatting gives what the formatter gives, and definition, hover, symbol and completion answers name the structs and enums the text defines, at their lines; after an enum's name and a dot completion offers its members, and inside @expr or @count the fields of the struct around it.",
 ["histories","inputs"],"every sequence of open, change, hover, definition, completion, formatting and symbol requests over generated documents and positions, and malformed messages",
 "No test exercises the language server.",
 ["src/cli/cmd_lsp.c"],[("message loop","src/cli/cmd_lsp.c")],["cnd lsp process"])
add("C26","The Go binding behaves exactly as the C library",
 "For every accepted schema, program image, data and host behaviour, encoding, decoding, loading and key lookup through the Go package give the same bytes, the same sequence of host callbacks with the same values, and an error exactly when the C library does, with a message that names that error.",
 ["programs","inputs"],"every accepted schema with valid, corrupted and truncated data, both directions",
 "Go tests exercise three small fixed programs.",
 ["go/concordia.go","go/bridge.c","go/bridge.h","go/consts.go"],[("cgo bridge","go/concordia.go")],["Go package API"])
add("C27","Generated language constants mirror the C header",
 "The constant generator emits, for any header in the supported style, every opcode and error constant of the header with the same numeric value and nothing else, and the constants shipped with the Go package equal those of the current header. A header that cannot be read is reported as an error.",
 ["inputs","configurations"],"the shipped header and every generated header with added, removed, renumbered and commented definitions",
 "The existing check compares the output for the one shipped header only.",
 ["src/tools/gen_bindings.c","go/consts.go",H],[("header scanner","src/tools/gen_bindings.c")],["gen_bindings process"])
add("C28","One compiled program can be used by many contexts at once",
 "Any number of contexts, on any threads and in any interleaving, may share one loaded program: each encode or decode gives exactly the result it gives alone, and there are no data races in the library.",
 ["schedules","histories"],"every assignment of schemas, values and directions to threads and every interleaving, including nested execution of another context from inside a host callback",
 "Tests are single threaded and never nest executions.",
 [VM,H],[("all mutable state in the context","include/concordia.h cnd_vm_ctx")])
add("C29","Byte and bit order are applied per field and only where declared",
 "Switching a field or the whole packet between little and big endian reverses the bytes of exactly the affected multi-byte values and changes nothing else; after a field with its own byte order the following fields use the packet's order again. Bit-packed fields are laid out least significant bit first in little-endian order and most significant bit first in big-endian order and in unaligned structs.",
 ["programs","inputs"],"every accepted schema, every choice of packet and per-field byte order, every value",
 "Tests check one big-endian field in a little-endian packet.",
 [CP,VM,VI],[("endianness state","src/vm/vm_exec.c OP_SET_ENDIAN_*"),("emission and restore","src/compiler/cnd_parser.c parse_field")])
add("C30","Compilation is deterministic and its report is well formed",
 "Compiling the same source twice, from any path or working directory, under any earlier compilations in the process, gives identical output bytes. Every line printed in JSON mode is a valid JSON object whatever the source text, file names or errors, and the reported status, string count and code size agree with the return value and the file written. Errors are reported at the line and column where the text has the offending token, the same in both reports, wherever layout moves it.",
 ["programs","histories","configurations"],"every accepted or rejected schema, any path, any sequence of compilations in one process",
 "No test compares two compilations or parses the JSON report.",
 [CC,CP],[("report output","src/compiler/cndc.c cnd_compile_file, src/compiler/cnd_parser.c parser_error")])
add("C31","A host failure stops the operation immediately and is reported",
 "If the host callback reports an error for any value at any point of an encode or decode, the operation ends with the callback error, makes no further callback, and the callbacks made before are exactly those of the undisturbed run (a host may decline the bulk form of a byte array, in which case its elements are exchanged one by one instead, and on encode it may decline an optional string, which is then left out). The context can then be initialised again and used normally.",
 ["programs","inputs","fault_sequences"],"every accepted schema and value assignment, a failure injected at every callback position, both directions",
 "One test fails a callback at the first field.",
 [VM],[("callback result checks","src/vm/vm_exec.c io_callback call sites")])
add("C32","Layout of the source text does not change the program",
 "Whitespace, line breaks, comments, documentation comments, synonymous type and decorator names and the notation of numbers (decimal or hexadecimal) never change the compiled program; consistently renaming fields, structs and enums changes only names.",
 ["programs"],"every accepted schema and every such rewriting of its text",
 "Tests write every schema in one style.",
 [CL,CP,CU],[("lexer","src/compiler/cnd_lexer.c"),("number parsing","src/compiler/cnd_utils.c parse_number_*")])
add("C33","A command writes only its output file; its exit status tells if it succeeded",
 "Every command line call exits with 0 exactly if it completed (the schema compiled, the text was formatted, the message encoded or decoded, the image listed, help or version printed); a call that cannot complete (invalid or missing input, unknown command, missing arguments, output that cannot be written) prints a message, exits non-zero and leaves every file as it was, including an existing output file. A completed call writes exactly the named output, also when that is one of its inputs, touches no other file, and gives the same result whenever it is repeated on the same inputs.",
 ["histories","inputs"],"every sequence of calls with any arguments and any file contents in one directory",
 "Tests call a few commands once with valid arguments and separate files.",
 ["src/cli/main.c","src/cli/cmd_compile.c","src/cli/cmd_fmt.c","src/cli/cmd_encode.c","src/cli/cmd_decode.c","src/cli/cli_helpers.c","src/compiler/cndc.c"],[("command dispatch","src/cli/main.c main"),("writing of results","src/cli/cli_helpers.c write_file_bytes, src/compiler/cndc.c cnd_compile_file, src/compiler/cnd_fmt.c cnd_format_file")])
add("C34","The nob build helpers run the tool on exactly the paths given",
 "cnd_compile, cnd_encode and cnd_decode of include/nob_concordia.h have the effect of the corresponding command of the tool on exactly the files named by their arguments: for every file contents and every usable path (spaces, quotes, shell characters, leading dashes inside directories), they return true exactly if that command succeeds, the output file then holds the bytes that command produces, no other file is created or changed, and on failure they return false and leave existing files alone.",
 ["inputs"],"every schema, message and path",
 "No test includes the header.",
 ["include/nob_concordia.h"],[("helpers","include/nob_concordia.h cnd_compile, cnd_encode, cnd_decode")])
add("C35","The runtime allocates nothing, needs a bounded stack and works in place",
 "Loading, verifying and executing a compiled schema and looking up its names allocates or releases no heap memory and needs at most a fixed amount of stack, whatever the schema, its nesting and the data. The program image may lie in read-only memory, field names are reported where they lie in the image, and decoded strings and byte arrays where they lie in the message: nothing is copied to other places. When encoding, a string given by the host is needed only until the next callback.",
 ["programs","inputs"],"every accepted schema, every operation of the runtime, valid and invalid messages and hosts that fail",
 "Tests observe results, not resources; recursion, buffers sized by the input and hidden copies show only with particular schemas and sizes.",
 [VM,VI,VV,H],[("execution loop without recursion","src/vm/vm_exec.c cnd_execute"),("string hand-over","src/vm/vm_exec.c HANDLE_STRING_PRE, OP_RAW_BYTES")],["public C API","allocator","stack"])
add("C36","Runtime and tool behave the same on every target and in every build",
 "For the same program, data and host answers the runtime makes the same callbacks with the same values, ends with the same error at the same position and leaves the same bytes whatever the size of pointers and size_t, the signedness of char, the size of enumerations, the compiler and the optimisation level; the same images load and verify. The command line tool writes the same files, prints the same text and ends with the same status in every build. In particular lengths, counts and offsets of every size in messages and programs are bounds-checked also where sizes have 32 bits. (The last bits of sin, cos, tan, log and pow and the choice among NaNs are the platform's.)",
 ["programs","inputs","configurations"],"every accepted schema, any image or bytecode, any message and host, on 32-bit and 64-bit targets",
 "The tests run in one build on one 64-bit machine.",
 [VM,VI,VV,H],[("bounds checks","src/vm/vm_exec.c HANDLE_STRING_PRE, try_optimize_byte_array, OP_RAW_BYTES, OP_SWITCH"),("integer and float conversion","src/vm/vm_exec.c OP_FTOI, transforms")],["public C API","processor and compiler"])
add("C37","Memory and files taken are given back, also when the work fails",
 "Compiling and formatting, through the library any number of times in one process or as a command, on sources that are valid, broken, with missing, repeated or cyclic imports, or with an output that cannot be written, releases all memory and closes all files it took; so do inspect, encode and decode on any image, message and JSON document, and the language server for any sequence of messages: a session of any length neither grows with the messages handled nor runs out of files, and its answers stay those of the beginning.",
 ["programs","inputs","histories"],"every source, image, message, document and session, including those that fail at any point",
 "The tests run each operation once in a short-lived process and never look at what is left.",
 [CP,"src/compiler/cndc.c","src/compiler/cnd_utils.c","src/compiler/cnd_fmt.c","src/cli"],[("release of parser state","src/compiler/cndc.c cnd_compile_file"),("document store","src/cli/cmd_lsp.c"),("frames and strings of a message","src/cli/json_binding.c")],["compiler API","command line","language server"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P), [p["id"] for p in P if len(p["title"])>80])
