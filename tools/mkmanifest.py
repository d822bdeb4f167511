"""Writes MANIFEST.json (run by hand when the list of checks changes)."""
import json, subprocess
T = {
"C01": ("fuzzing: generated and exhaustively enumerated short inputs, crash/abort/hang oracle, depth probes in child processes", "random bytes, token soups, 1-8 mutations of generated modules, all 2-byte section contents and bodies; overflow checks on"),
"C02": ("property-based testing: count/length fault injection under a counting allocator and a counting reader", "bounds are a constant plus a factor per input byte, with an order of magnitude of slack; CPU time on long inputs only against gross superlinearity"),
"C03": ("differential fuzzing against a reference decoder written from the specification", "both acceptance directions; trusts the reference decoder, which was written from the 3.0 grammar and shares no code"),
"C04": ("property-based round trip: generated module, styled encoding, decode, compare in full", "lists up to 100001 entries, all sections, exact comparison"),
"C05": ("property-based testing: every opcode times places times immediates, all ordered pairs of opcodes, random sequences; oracle is the encoder's abstract syntax", "opcode table written from the specification"),
"C06": ("property-based testing: stratified enumeration of constants, bit-exact comparison (all 2^32 f32 and i32 in the thorough tier)", "64- and 128-bit operands are sampled"),
"C07": ("property-based testing: every LEB128 field times enumerated encodings, against an arbitrary-precision reference", "all last bytes at every length at every field of the templates"),
"C08": ("bounded-exhaustive generation of section sequences plus random permutations, against an order model", "all sequences up to length 3 over 13 kinds, random longer ones"),
"C09": ("fault injection on size fields with an exact acceptance oracle", "every section and body size, deltas and borrowed bytes"),
"C10": ("bounded-exhaustive combinations of counts and absences, random placements of data instructions, against a model", "counts 0..4 and large; nesting to depth 40"),
"C11": ("metamorphic testing: insertion, removal and permutation of custom sections", "contents up to 2 MB"),
"C12": ("property-based testing: every truncation point and junk suffixes, against the reference decoder", "small modules at every offset, larger ones at boundaries and random offsets"),
"C13": ("metamorphic testing over reader schedules (piece sizes, interruptions)", "readers obey the Read contract"),
"C14": ("fault enumeration: every offset times error kinds, persistent and transient", "errors are injected by the reader; the chain of causes is searched for the injected message"),
"C15": ("fault injection at single fields, oracle: path of list positions known from the encoder", "positions are read from the error texts, in chain order"),
"C16": ("fault injection at single fields, oracle: what the root cause must state", "texts are matched loosely: the value as found, and the class of the failure"),
"C17": ("bounded-exhaustive byte sequences as names at four places, against an independent UTF-8 definition", "all 1- and 2-byte names, boundary sets of 3 and 4 bytes (all 3-byte names in the thorough tier), random long names"),
"C18": ("property-based testing: all one-, two-byte codes and generated types at every place of a type, against the reference", "type indices are sampled"),
"C19": ("property-based testing: generated runs of locals and sums around the limit, model of expansion", "expansion up to 2^22 locals; sums to 2^40 through rejected or otherwise malformed bodies"),
"C20": ("property-based round trip over all forms of segments, all flags", "forms forced through the encoder's choices"),
"C21": ("property-based round trip over all descriptors and limits", "64-bit limits sampled at boundaries"),
"C22": ("differential testing of the tool's process against the library", "a few hundred processes per run in the quick tier"),
"C23": ("stateful testing: histories and concurrent mixes of decodings, against first results and a reference decoder", "thread schedules are those of the operating system, and generated ones that switch at reads"),
"C24": ("bounded-exhaustive sequences of delimiters plus random trees, against a reference parser", "all token sequences up to length 6 over 7 tokens, trees to depth 20000"),
"C25": ("exhaustive codes at every coded field of the templates, with an acceptance oracle", "all 256 bytes at one-byte codes; sub-opcodes up to 70000 and those congruent to defined ones"),
"C26": ("metamorphic testing: two encodings of the same generated module", "padding and abbreviations at every field"),
"C27": ("fault injection with follow-up: suggested bytes are substituted and tried", "suggestions are read from the error text"),
"C28": ("metamorphic testing: pairs of generated modules one change apart, print and equality against the comparison of the reference's syntax", "changes at one entry or byte, near-duplicate entries, and two encodings of one module"),
"C29": ("stateful testing under an allocator that tracks live bytes: histories of decodings whose results are dropped", "bound: 64 KB plus eight times the largest input"),
"C30": ("metamorphic testing: malformed section times continuations, including endless readers", "error compared as text, chain and print; an endless input must end the decoding within a bound of bytes read"),
"C31": ("metamorphic testing: entries of generated modules interleaved, instruction sequences nested, malformed parts moved; compared with what the decoder makes of the parts", "pairs of modules, all pairs of templates; lists up to 140000 entries; nesting to depth 4"),
"C32": ("property-based testing: faults at every field and byte of the templates and in generated modules with hostile names; invariants over the texts", "a message at most 400 characters, a chain at most 24 messages; names to 1 MB, nesting to 1000"),
"C33": ("property-based testing: sets of errors from related faults (every field, value and position of templates; generated modules; long lists), compared pairwise by print and by messages", "errors are compared within a case: one template, one generated module, or the long lists"),
"C34": ("differential testing of two builds of the crate, with and without debug assertions and overflow checks, on generated and mutated modules", "modules compared in full, floats by their bits; errors by messages and print"),
"C35": ("differential testing of three builds of the crate, for x86-64, for i686 (run as it is) and for s390x (big-endian, interpreted by Miri), on generated and mutated modules", "modules compared in full, floats by their bits; errors by messages and print; about a hundredth of the inputs are also small enough, and taken, for the big-endian machine"),
}
ids = subprocess.run(["target/release/wv", "list"], capture_output=True, text=True, cwd="/verif").stdout.split()
props = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
m = {"version": 1, "setup_cmd": "./run.sh build", "checks": [], "not_applicable": []}
for p in props:
    if p in ids:
        m["checks"].append({"property": p, "quick_cmd": f"VERIF_TIER=quick ./run.sh {p}",
            "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {p}", "evidence_file": f"evidence/{p}.json",
            "technique": T[p][0], "level": "fault_enumeration" if p == "C14" else "exploration",
            "level_note": T[p][1]})
    else:
        m["not_applicable"].append({"property": p, "reason": "the check is not finished"})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
