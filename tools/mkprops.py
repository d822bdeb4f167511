"""Writes properties.jsonl (run by hand when the list changes)."""
import json
M = "src/decode/module.rs"; H = "src/decode/helpers.rs"; I = "src/decode/instructions.rs"
N = "src/decode/integer.rs"; S = "src/decode/sections/"; T = "src/decode/types/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    assert statement.count(". ") <= 2, id
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe or ["return value of the decoding entry point"], hook_needed=None)))

p("C01", "Decoding any byte string ends in a module or an error, never in a crash",
  "For every input, decoding terminates normally with either a decoded module or an error value, and both can be printed: it never panics, aborts, overflows an integer or the stack, or hangs. This includes inputs that are truncated, corrupted, contradictory or hostile, and function bodies nested hundreds of blocks deep on an ordinary thread stack.",
  ["inputs"], "all byte strings: arbitrary bytes, mutations of valid modules, valid modules of any shape, nesting depth up to 1000 on an 8 MB stack (deeper with a larger stack)",
  "the tests decode about 200 hand-made files; a panic needs one unforeseen combination of bytes",
  [M, H, I, N, S + "code.rs", T + "heaptype.rs"],
  [("errors are values, conversions are checked", N), ("recursive descent over nested blocks", I), ("reading past the end is an error", H)])
p("C02", "Memory and work are bounded by the input received, not by the sizes it declares",
  "The memory allocated, the reads performed and the time taken while decoding are at most a constant plus a constant factor times the number of bytes actually supplied, whatever counts and lengths those bytes declare. The only amplification is the list of local variables that a well-formed function declares, which costs a constant per local.",
  ["inputs"], "all inputs; in particular every count and length field of every section replaced by values up to 2^32-1, with few or no bytes following",
  "tests never measure allocation, and decode small files whose counts are honest",
  [H, M, S + "code.rs", S + "custom.rs", S + "data.rs"],
  [("vectors are reserved up to a fixed bound and grow as elements are read", H), ("byte vectors grow as bytes arrive", H), ("locals are counted against a limit before they are expanded", S + "code.rs")],
  ["allocations made during the call", "reads made on the supplied reader"])
p("C03", "Exactly the byte strings of the binary grammar are accepted",
  "A byte string is decoded successfully if and only if it is a module according to the binary format of WebAssembly 3.0; a byte string that is malformed in any way is rejected, and modules that are well-formed but would fail validation are accepted.",
  ["inputs"], "all byte strings, sampled as well-formed modules of every shape and as mutations of them (bit, byte, integer, range, section and size edits, with and without repaired framing)",
  "the specification test suite fixes a few hundred files; both directions of the equivalence quantify over all byte strings",
  [M, H, I, N, S + "mod.rs", T + "mod.rs"],
  [("recursive-descent decoding of each production", I), ("section framing and ordering", M)])
p("C04", "The decoded module is the module that was encoded, in full and in order",
  "Decoding an encoding of any module yields exactly that module: every section's entries, all of them, once, in their order, with all their fields; sections that are absent come out empty, and nothing else appears.",
  ["inputs"], "all modules (sections, list lengths from 0 to tens of thousands, field values over their whole range) and all their encodings",
  "tests compare a few fixtures with short lists and small values against expected structures",
  [M, S + "mod.rs", T + "mod.rs", I],
  [("each section's result is stored in the module", M), ("list decoding", H)])
p("C05", "Every instruction decodes to its own operation with its own immediates",
  "Each opcode of WebAssembly 3.0 (one-byte and prefixed) decodes to the instruction the specification assigns to it, with the immediates it carries in the right roles, whatever their values and wherever the instruction stands: in function bodies, nested blocks or initialiser expressions. Sequences keep their order and length.",
  ["inputs"], "all 580 or so opcodes times all immediate values, in all contexts",
  "fixtures contain each opcode at most once, with small and often equal immediates that cannot tell swapped fields apart",
  [I, "src/core/instruction.rs", "src/decode/indices.rs"],
  [("opcode dispatch", I), ("memory arguments, lanes, casts, branch tables", I)])
p("C06", "Constants are decoded bit for bit",
  "The operands of constant instructions are preserved exactly: integers over their whole range, floating-point numbers as the bits in the file (signed zeros, infinities, subnormals, quiet and signalling NaNs with their payloads), 128-bit vectors and shuffle masks byte by byte.",
  ["inputs"], "all 32- and 64-bit integers, all 2^32 and 2^64 float bit patterns, all 128-bit vectors",
  "tests use a few ordinary constants; NaN payloads and extreme values are not sampled",
  [H, I, N], [("little-endian floats", H), ("signed LEB128", N), ("vector immediates", I)])
p("C07", "Variable-length integers are decoded exactly, and only within their bounds",
  "Wherever the format has a LEB128 integer, every encoding of a value that fits the width and length limit is accepted with exactly that value (including encodings padded up to the limit), and one that is too long, too large or wrongly sign-extended is rejected. It makes no difference which field holds the integer.",
  ["inputs"], "all LEB128 encodings of all values of u32, u64, s32, s64 and s33, at every field of the format that holds one",
  "unit tests check chosen values of the integer readers, not every field, padding and boundary",
  [N, "src/decode/indices.rs", I, T + "limits.rs", T + "heaptype.rs"],
  [("length and range checks on the last byte", N), ("33-bit type indices", T + "heaptype.rs")])
p("C08", "Sections are accepted only in their prescribed order, at most once each",
  "A module in which a section other than a custom one is repeated or stands before one it must follow is rejected, wherever and with whatever contents, and any subset of sections in the prescribed order is accepted. Custom sections may stand anywhere and any number of times, and do not affect this.",
  ["inputs"], "all sequences of sections, including every ordered pair and triple of section kinds, with custom sections in between and with empty or full contents",
  "tests check a few wrong orders out of all sequences",
  [M, "src/core/module.rs"], [("comparison with the last non-custom section", M), ("order of section kinds", "src/core/module.rs")])
p("C09", "Declared sizes of sections and function bodies are enforced exactly",
  "A section or function body is accepted only if its contents end exactly where its declared size says, and contents never extend into, or borrow bytes from, what follows. The size reported for each section is the one in the file, in order of appearance, custom sections included.",
  ["inputs"], "all modules with any one size field changed by any amount, with or without extra bytes, for every section kind and every function body",
  "tests check a few mismatches on two or three kinds of section",
  [M, S + "code.rs", S + "custom.rs"], [("limited reader per section and body, checked for a rest", M + ", " + S + "code.rs")])
p("C10", "What sections say about each other must agree",
  "A module is rejected if the numbers of function declarations and bodies differ, if a data count differs from the number of data segments, or if any function body mentions a data segment although there is no data count; otherwise it is accepted. An absent section counts as an empty one, and mentions count at any nesting depth, but not outside function bodies.",
  ["inputs"], "all combinations of counts 0..n and absence for the four sections, and all positions of the four instructions that mention data segments",
  "tests check single instances of each disagreement, at top level",
  [M, H], [("count comparisons", M), ("search for data indices in bodies", H)])
p("C11", "Custom sections are preserved and otherwise invisible",
  "Custom sections are reported in file order with their exact name and contents, whatever these are, including empty, large, binary and duplicate ones. Adding, removing or moving them changes nothing else about the decoded module.",
  ["inputs"], "all modules times all placements, numbers, names and contents of custom sections",
  "tests have one or two custom sections at fixed places",
  [S + "custom.rs", M], [("contents read to the end of the section", S + "custom.rs"), ("custom sections skip the order check", M)])
p("C12", "A cut-off module or trailing bytes never pass for a complete module",
  "A proper prefix of a module is rejected unless it ends exactly after a section and the sections so far form a module of their own; in that case it decodes to exactly those. Bytes after the last section are decoded as further sections and rejected if they are not. Likewise a section or function body that stops in the middle of its contents is rejected even if its size agrees.",
  ["inputs", "crash_points"], "every truncation point of every module; every suffix of junk",
  "tests truncate a few files at one point each",
  [M, H], [("end of input only between sections", M), ("exact reads", H)])
p("C13", "The result does not depend on how the reader delivers the bytes",
  "Decoding the same bytes from any reader gives the same module or the same error, whether the reader hands out one byte at a time, arbitrary pieces, or is interrupted between them. The input ends where the reader first says that it does, even if it would go on when asked again.",
  ["inputs", "schedules"], "all inputs times all ways of dividing them into reads, and all patterns of interrupted reads",
  "tests always read from a slice or a file, which deliver everything at once",
  [M, H, S + "custom.rs", T + "valtype.rs"], [("exact reads retry", H), ("section header read", M), ("bytes pushed back with chained readers", T + "valtype.rs")])
p("C14", "A failing reader yields an error that carries its cause, never a module",
  "If the reader fails at any point, decoding returns an error from whose chain of causes the reader's own message can be read; it never returns a module, whatever the kind of failure, including at the boundary between sections, and does not go on reading.",
  ["inputs", "fault_sequences"], "every byte offset of every module times every kind of I/O error",
  "tests inject no I/O errors",
  [M, H, N, I, S + "code.rs", T + "mod.rs"], [("I/O errors are propagated as sources", H), ("errors at a section boundary", M)])
p("C15", "An error names the section and the entries it occurred in",
  "When one field of a module is malformed, the error says which section it belongs to and, for each list on the way to the field, the position of the entry, counted from zero.",
  ["inputs"], "every field of every module, made malformed or cut off one at a time",
  "tests assert the errors of a few dozen fixtures, mostly for the first entry",
  [H, M, S + "mod.rs", "src/decode_errors.rs"], [("element position attached to errors", H), ("one error variant per section", M)],
  ["the error and its chain of causes, as text"])
p("C16", "An error leads to its root cause and states the true values",
  "Following an error's chain of causes ends at what is actually wrong with the input: an unexpected byte or value is stated as found, an integer is called too long or too large, a name not UTF-8, an input that ends early as such, and sizes and counts that disagree are stated as declared and as found.",
  ["inputs"], "every field of every module times every kind of malformation of that field",
  "tests assert a few error texts; most malformations of most fields are never triggered",
  ["src/decode_errors.rs", H, I, N, S + "mod.rs", T + "mod.rs"], [("error types with sources", "src/decode_errors.rs")],
  ["the error and its chain of causes, as text"])
p("C17", "Names are accepted if and only if they are UTF-8, and kept byte for byte",
  "The names of custom sections, imported modules, imported items and exports are accepted exactly when they are well-formed UTF-8 (no overlong forms, surrogates, values above U+10FFFF or cut-off sequences), and are then reported unchanged, without normalisation, trimming or deduplication.",
  ["inputs"], "all byte strings as names, at each of the four places",
  "the specification suite has fixed invalid sequences; valid names in tests are ASCII",
  [H, S + "custom.rs", S + "import.rs", S + "export.rs"], [("UTF-8 check on the name's bytes", H)])
p("C18", "Types are decoded exactly, in every place they can occur",
  "Value, reference, heap, storage, function, structure, array, recursive and subtype definitions, and block types decode to precisely the type written, with nullability, mutability, finality, supertypes and 32-bit type indices, and codes that denote no type are rejected there.",
  ["inputs"], "all types, all one-byte codes at each place where a type may stand",
  "tests have a fixture for some types at some places",
  [T + "comptype.rs", T + "rectype.rs", T + "reftype.rs", T + "heaptype.rs", T + "valtype.rs", I], [("marker dispatch with push-back", T + "reftype.rs"), ("block type alternatives", I)])
p("C19", "Local variables are expanded as declared, up to the limit and not beyond",
  "A function's locals are its declared runs expanded in order, each with its count and type, empty runs contributing nothing. Declarations adding up to 2^32 or more are rejected, however the sum is distributed, and the limit applies to each function on its own.",
  ["inputs"], "all sequences of runs, with counts from 0 to 2^32-1 and sums around the limit",
  "tests have one overflow case and small counts",
  [S + "code.rs", M], [("64-bit sum against the limit", S + "code.rs"), ("expansion", M)])
p("C20", "Element and data segments decode in all their forms",
  "Each of the eight forms of element segment and three forms of data segment yields the segment it stands for: mode, table or memory index, offset expression, element type with its nullability, and the elements or bytes in order. Other form codes and element kinds are rejected.",
  ["inputs"], "all segments in all forms that can express them, all form codes",
  "fixtures have one small segment per form",
  [S + "element.rs", S + "data.rs"], [("dispatch on the bit field", S + "element.rs")])
p("C21", "Imports, exports, tables, memories, globals, tags, start decode exactly",
  "Each import and export keeps its names, kind and index or type; tables, memories, globals and tags keep their limits (64-bit, with address type and presence of a maximum), element type, mutability and initialisers; the start function is kept. Limits are not reinterpreted or checked against one another.",
  ["inputs"], "all descriptors of all five kinds, all limits over the 64-bit range",
  "fixtures have small limits and each kind a few times",
  [S + "import.rs", S + "export.rs", S + "table.rs", S + "memory.rs", S + "global.rs", S + "tag.rs", S + "start.rs", T + "limits.rs", T + "externtype.rs"], [("descriptor dispatch", T + "externtype.rs"), ("limits flags", T + "limits.rs")])
p("C22", "The command-line tool reports exactly what the library decides",
  "For every input file or standard input, the tool exits with success and no error output if and only if the library accepts the bytes; otherwise it exits with failure and prints the library's error and every cause in order on standard error. In verbose mode it prints the decoded module or error in full; a file that cannot be read is a failure.",
  ["inputs", "configurations"], "all inputs, given by file, by standard input, verbose or not, and unreadable paths",
  "there are no tests of the tool",
  ["wadec-cli/src/main.rs", "src/decode_errors.rs"], [("exit code and error chain", "wadec-cli/src/main.rs")],
  ["exit status, standard output, standard error"])
p("C23", "Decoding is a pure function of the bytes",
  "Decoding the same bytes gives the same module or the same error every time, regardless of what was decoded before, of failures in between, of other decodings running on other threads, and of the environment and the time.",
  ["inputs", "histories", "schedules"], "all histories and concurrent mixes of decodings, of valid and invalid inputs",
  "each test decodes one file once",
  [M, "src/decode/mod.rs"], [("no state outlives a call", M)])
p("C24", "Structured instructions nest as written",
  "Blocks, loops, conditionals with and without alternative, and exception handlers contain exactly the instructions between their delimiters, at any depth; an absent alternative is distinguished from an empty one. A missing, surplus or misplaced delimiter makes the module malformed.",
  ["inputs"], "all trees of structured instructions; all sequences of delimiters and instructions",
  "fixtures nest two or three levels",
  [I, H], [("recursive parsing up to a delimiter", I)])
p("C25", "Codes that the format leaves undefined are rejected wherever they stand",
  "Any byte or number that WebAssembly 3.0 does not define at a place (section, type, kind, flag, mutability, opcode or prefixed opcode) makes the module malformed, however it is encoded and even if it agrees with a defined one in its low bits.",
  ["inputs"], "all 256 bytes at each one-byte code, and all numbers below 2^32 at each multi-byte code, in each place",
  "tests try one undefined code for some of the places",
  [M, I, S + "element.rs", S + "data.rs", T + "limits.rs", T + "externtype.rs", T + "heaptype.rs"], [("match with rejecting default", I), ("marker maps", "src/decode/mod.rs")])
p("C26", "Different encodings of the same module decode to the same module",
  "Choices the format leaves to the encoder (longer integers, abbreviated or full forms of types, segments, tables and memory arguments) do not show in the decoded module, except for the section sizes reported.",
  ["inputs"], "all modules times all combinations of encoding choices",
  "no test compares two encodings of one module",
  [N, T + "rectype.rs", T + "reftype.rs", S + "element.rs", S + "data.rs", S + "table.rs", I], [("abbreviations are expanded", T + "rectype.rs")])
p("C27", "Diagnostics that suggest acceptable bytes suggest exactly those, by their names",
  "When the error for an unexpected byte enumerates what was expected, then every byte it enumerates is acceptable there: the same input with that byte instead does not fail with an unexpected byte at that place. The byte that was found is not among them, none is told twice, and where only codes of a fixed set can stand all of them are told. If it gives a byte a name, then that is the name of what the byte decodes to.",
  ["inputs"], "every field with a limited set of bytes, in every context, times every unacceptable byte",
  "tests compare a few messages with fixed texts",
  ["src/decode/mod.rs", M, S + "element.rs", S + "export.rs", T + "limits.rs", T + "comptype.rs"], [("expected markers listed from the table used for decoding", "src/decode/mod.rs")],
  ["the error text"])
p("C28", "The print and the equality of a decoded module show all of it",
  "Modules that differ in anything (an entry, an operand, an order, a section's presence or size) print differently with {:?} and {:#?} and compare unequal; modules that differ in nothing print the same and compare equal. Apart from floating-point NaNs (whose payloads are not printed, and which equal nothing) and the sign of zero in comparisons.",
  ["inputs"], "all pairs of modules, at any distance, those that differ in one place in particular",
  "tests compare whole modules with assert_eq, which is blind to whatever equality or print leave out",
  ["src/core/module.rs", "src/core/instruction.rs", M], [("derived Debug and PartialEq on all types of a module", "src/core/module.rs")])
p("C29", "Nothing of a decoding stays behind",
  "Once the result of decoding (module or error) is dropped, all memory obtained for it is returned, so the memory a long-lived process holds does not grow with the number, size or contents of the inputs it has decoded; nor does any thread or open file remain.",
  ["inputs", "histories"], "all histories of decodings of valid, malformed and truncated inputs, whose results are dropped",
  "no test measures memory, and each decodes one file",
  [M, H, I], [("ownership: no statics, no leaks", M)],
  ["live bytes of the allocator"])
p("C30", "The first malformed section decides the error",
  "When a section is malformed in itself, what follows that section (other bytes, further faults, nothing at all, an input that never ends) changes nothing about the error reported. When a section cannot stand where it does (out of order, or a second of its kind), neither does what it contains; when it has another number of function bodies or data segments than was announced, neither does what follows. Decoding ends there even if the input does not.",
  ["inputs"], "all malformed sections, times all continuations including endless ones",
  "each test of an error has one file, with nothing or little after the fault",
  [M, H], [("sections are decoded in one pass, errors returned at once", M)])
p("C31", "What a part decodes to does not depend on what surrounds it",
  "An entry of a section decodes to the same whatever entries and sections come before and after it, how many there are, and at which position it stands; a sequence of instructions decodes to the same after, before and within others, and in every place where instructions can stand. What is wrong with a malformed entry or instruction is reported the same wherever it stands, positions aside.",
  ["inputs"], "all pairs of modules, all interleavings of their entries, all nestings of their instruction sequences, and all malformed entries and instructions in such company",
  "each test has one fixed file, in which every entry has one company",
  [M, H, I, S + "code.rs", S + "element.rs", S + "table.rs"], [("decoders of entries are functions of the reader alone", H), ("sections stored as decoded", M)])
p("C32", "Messages are short, printable, and say something at every level",
  "Every message in the chain of causes of an error is non-empty, is not a repetition of its cause (entries of nested lists, at the same position, aside), stays short (some hundred characters) and the chain does too (some ten messages), however long, deeply nested or numerous what was decoded is; no control or direction-changing character gets from the input into a message or the print of a module or error, and a message is one line (the one that lists the eight bytes of the preamble aside).",
  ["inputs"], "all malformed inputs, those with long or hostile names and deep nesting in particular, and the prints of all modules",
  "tests compare the messages of a few errors",
  [H, I, M, "wadec-cli/src/main.rs"], [("error texts by thiserror, causes via source()", H)],
  ["the error texts"])
p("C33", "The debug print of an error holds all that its messages say",
  "Errors whose chains of messages differ in anything (what is wrong, a value stated, a position, a section) print differently with {:?} and with {:#?}, which is what the command-line tool shows when asked for details.",
  ["inputs"], "all pairs of malformed inputs",
  "tests compare typed errors, whose prints nothing looks at",
  [H, M, I], [("the print of errors in lists, by hand", H)],
  ["the debug print of DecodeListError"])
p("C34", "How the crate is built makes no difference",
  "The same bytes decode to the same module or the same error (messages and print) whether or not the crate is built with debug assertions, overflow checks and optimisation.",
  ["inputs"], "all inputs, well-formed and malformed, those with numbers at their limits in particular",
  "tests run in one build, which has debug assertions and overflow checks and is not what users run",
  [N, H, M, I, S + "code.rs"], [("arithmetic and checks do not rely on the build", N)])
p("C35", "The kind of machine makes no difference",
  "The same bytes decode to the same module or the same error (messages and print) whether the machine decoding them has words of 64 or of 32 bits and whether it is little- or big-endian, given memory enough.",
  ["inputs"], "all inputs, well-formed and malformed, those with numbers at their limits in particular",
  "tests run on one machine, of 64 bits and little-endian; a decoder of WebAssembly is as likely to run in 32 bits, compiled to WebAssembly",
  [N, H, M, I, S + "code.rs"], [("sizes, counts and sums are kept in integers of fixed width; floats are read in little-endian order", N)])
with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
