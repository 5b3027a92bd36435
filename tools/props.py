#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (kept in step with each other and with lib/jobs.py)."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(V, "lib"))
import jobs

BUF, IMP, VEC, LIB = "nommy/src/buffer.rs", "nommy/src/impls.rs", "nommy/src/vec.rs", "nommy/src/lib.rs"
TXT, BYT = ["nommy/src/text/tag.rs", "nommy/src/text/one_of.rs", "nommy/src/text/many.rs", "nommy/src/text/mod.rs"], ["nommy/src/bytes/tag.rs", "nommy/src/bytes/one_of.rs", "nommy/src/bytes/many.rs"]
FN, ATT, EN = "nommy-derive/src/fn_impl.rs", "nommy-derive/src/attr.rs", "nommy-derive/src/enum_impl/mod.rs"
ST = ["nommy-derive/src/struct_impl/named.rs", "nommy-derive/src/struct_impl/unnamed.rs", "nommy-derive/src/struct_impl/unit.rs"]

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None), note=note))


prop("C01", "A buffer yields exactly the items of its source, in order",
     "Whatever sequence of reads, look-aheads, jumps and cursors is applied to a buffer, every read returns the next item of the underlying iterator that was not yet consumed: no item is lost, repeated or reordered. The methods of Iterator (nth, take, skip, count, last, collect, size_hint ...) agree with reading item by item. Looking k items ahead returns that item without consuming anything, a jump consumes exactly that many items (or all that are left), and past the end every operation reports the end.",
     ["histories", "inputs"], "all sequences of operations on a buffer, over all sources and all arguments",
     "The tests make two short histories on one text; the queue of items read ahead has a state (how much is buffered, where its ring starts) that depends on the whole history.",
     [BUF], [("Buf: an iterator and a queue of items read ahead", BUF), ("fast_forward: drops what is queued, then pulls the rest", BUF), ("peek_ahead: pulls into the queue", BUF)],
     ["Buf::next", "Buf::peek_ahead", "Buf::fast_forward", "Buf::cursor"],
     "all histories within the listed numbers of operations, every choice of operation and argument, symbolic items; h_huge adds arguments of any 64-bit value",
     [dict(name="queue", meaning="items read from the source and not yet consumed", where=BUF)])
prop("C02", "Cursors are isolated and count their position exactly",
     "Reading, jumping or looking ahead on a cursor, or on cursors made from it at any depth, never changes what its parent cursor or the buffer will yield next. A cursor is an iterator like its buffer. It starts where its parent is, reads the same items its parent would, and, unless it was moved past the end of the input, its position is the number of items it has moved by since it was made or last reset, so that jumping its parent by that position consumes exactly the same items.",
     ["histories", "inputs"], "all sequences of operations on nested cursors, from any state of the buffer, over all sources",
     "Two tests read a fixed text through at most two cursors; positions and bases add up over nesting, resets and jumps in ways a few fixed histories do not reach.",
     [BUF], [("Cursor: base plus index into its buffer's look-ahead", BUF), ("position / reset_internal", BUF)],
     ["Cursor::next", "Cursor::peek_ahead", "Cursor::fast_forward", "Cursor::cursor", "Cursor::position"],
     "all histories within the listed numbers of operations and nesting depths; positions after running past the end are outside the claim (they over-count)")
prop("C03", "Parsing reads no further into the source than the grammar needs",
     "Building a buffer reads nothing, and parsing or peeking pulls no item from the underlying iterator beyond the furthest one needed to decide the result: for a tag its own length, for a run one item past its end, for a failed alternative what that alternative had to examine. So parsing works on endless and interactive sources and leaves the rest of the source unread.",
     ["inputs", "programs"], "all inputs, for every built-in parser, combinator, list function and derived fixture",
     "No test looks at how much of the iterator was consumed; tests use texts that are fully in memory.",
     [BUF, IMP, VEC, FN] + TXT + BYT, [("items are pulled on demand only", BUF), ("take(len) in tags", TXT[0])], ["the number of items pulled from the source iterator"],
     "all inputs up to the listed lengths; the bound on reading is the furthest item the reference recogniser examines, a tag counting in full")
prop("C04", "A buffer keeps only items that were looked at and not yet consumed",
     "At any point of any history a buffer holds no item that was already consumed and none that nobody looked at, so memory does not grow with the amount of input consumed. Every item taken from the source is dropped exactly once, whether it was consumed, jumped over or still held when the buffer goes away, and nothing is leaked.",
     ["histories"], "all sequences of operations, with items that count how many of them are alive",
     "A test checks that the queue is empty at the end of one history; retention and double drops depend on the order of jumps and look-aheads.",
     [BUF], [("fast_forward removes what it skips from the queue", BUF), ("next pops the queue", BUF)], ["the number of live items", "the number of live allocations"],
     "all histories within the listed numbers of operations")
prop("C05", "A text tag matches exactly its characters",
     "A text tag parser succeeds, and its peek is true, exactly when the next characters of the input are the characters of the tag, for any tag including ones with characters of several bytes. On success it consumes exactly those characters and nothing after them.",
     ["inputs"], "all inputs over all Unicode scalar values, for tags of one-, two-, three- and four-byte characters",
     "Tests only use one-character ASCII tags on matching text; lengths in bytes and in characters agree there.",
     [TXT[0]], [("takes as many characters as the tag has and compares", TXT[0])], ["Tag::parse", "Tag::peek", "the rest of the buffer"],
     "five tags (one character, a word, one with a repeated beginning, two multi-byte ones); found and repaired here: tags with multi-byte characters consumed too much")
prop("C06", "Byte parsers match exactly their bytes",
     "A byte tag matches exactly its bytes, a one-of matches exactly one byte of its set and returns that byte, and a run takes the longest non-empty run of bytes of its set and returns it unchanged. On success each consumes exactly what it matched; otherwise it fails.",
     ["inputs"], "all byte strings up to the bound, including bytes 0 and 255",
     "The tests for bytes use a handful of ASCII brackets; one-of and runs of bytes have no test of their own.",
     BYT, [("Tag / OneOf / AnyOf1 over u8", BYT[0])], ["parse", "peek", "the value", "the rest of the buffer"],
     "sets and tags that contain 0x00 and 0xff")
prop("C07", "Text character-class parsers match one character or the longest run",
     "One-of accepts exactly one character that is in its set and returns it; any-of and any-of-one take the longest run of characters in the set (any-of may take none, any-of-one needs at least one); while-not-one takes the longest non-empty run of characters outside the set and stops at the end of the input. The value is exactly the matched text, and what follows it is left unread.",
     ["inputs"], "all inputs over all Unicode scalar values, for sets with one-, two-, three- and four-byte characters",
     "One test peeks one ASCII run; the end of the input, empty runs and multi-byte characters are not exercised.",
     TXT[1:3], [("OneOf: set membership", TXT[1]), ("AnyOf / AnyOf1 / WhileNot1: loops over OneOf", TXT[2])], ["parse", "peek", "the value", "the rest of the buffer"],
     "found and repaired here: while-not-one's peek hung at the end of the input and accepted nothing")
prop("C08", "Line endings, spaces and white space are recognised exactly",
     "A line ending is a line feed or a carriage return followed by a line feed, a space is a blank or a tab, and white space is any of these; a lone carriage return or any other character, Unicode blanks included, is none of them. Parsing and peeking agree, and consume exactly the one or two characters matched.",
     ["inputs"], "all inputs over all Unicode scalar values",
     "Tests feed two line endings and one run of blanks; nothing covers a lone carriage return or other blanks.",
     [TXT[3]], [("peek of each type", TXT[3])], ["parse", "peek", "the rest of the buffer"], "alone and inside repetitions")
prop("C09", "Option and Box are transparent",
     "An optional parser always succeeds: with the value, consuming exactly what the inner parser consumes, when that succeeds, and with nothing, consuming nothing, when it fails, however far the inner parser got. A boxed parser behaves exactly as the parser it boxes.",
     ["inputs"], "all inputs, for optional and boxed tags, classes, line endings, runs, arrays and structs",
     "Two tests try one tag; that nothing is consumed on failure needs inner parsers that fail part-way.",
     [IMP], [("Option::parse: try on a cursor, then jump", IMP), ("Box::parse", IMP)], ["the value", "the rest of the buffer"],
     "inner parsers that succeed on zero items are outside (documented panic in debug builds)")
prop("C10", "A repetition takes every match it can, in order, and stops cleanly",
     "A vector parser takes inner matches one after another until the first that fails, returns them all in input order, and consumes exactly those matches and nothing of the failed attempt; it never fails itself. The at-least-one variant does the same but fails when the first match fails.",
     ["inputs"], "all inputs, for repetitions of tags, classes, white space, line endings, arrays and nested repetitions",
     "Four tests repeat one dot; partial last matches and nested repetitions are not exercised.",
     [IMP], [("Vec::parse and Vec1::parse: a cursor per attempt", IMP)], ["the value", "the rest of the buffer"],
     "inner parsers that succeed on zero items are outside (documented panic in debug builds)")
prop("C11", "An array parser takes exactly its number of elements or fails",
     "Parsing an array of N elements succeeds exactly when N consecutive matches of the inner parser exist, returns them in order and consumes exactly those. When any element fails the whole fails, every element already parsed is dropped exactly once, and no uninitialised memory is touched.",
     ["inputs"], "all inputs, for arrays of length 0 to 3 of tags, classes, line endings, options, repetitions and heap-owning elements",
     "One test parses three dots; the failure path with elements that own memory is never run.",
     [IMP], [("<[P; N]>::parse", IMP)], ["the value", "the rest of the buffer", "live allocations"],
     "found and repaired here: a failing element dropped uninitialised memory and leaked the elements before it")
prop("C12", "For built-in parsers, peek agrees with parse",
     "For every built-in parser and combinator, peeking is true exactly when parsing the same input would succeed, and a successful peek moves by exactly what that parse consumes. Peeking through a cursor leaves the buffer as it was.",
     ["inputs"], "all inputs, for every built-in parser and combinator, on buffers and on cursors",
     "Peeks are tested on three matching texts only; the two implementations of every parser are separate code.",
     TXT + BYT + [IMP, LIB], [("every Parse impl has a separate peek", LIB), ("default peek: parse and discard", LIB)], ["Parse::peek", "Parse::parse", "Cursor::position"],
     "checked on cursors and directly on buffers; also for user-written parsers with the default peek inside combinators")
prop("C13", "For derived parsers, peek agrees with parse",
     "For every derived struct and enum whose fields need no fallible conversion, peeking is true exactly when parsing the same input would succeed, and a successful peek moves by exactly what that parse consumes. This holds with any combination of prefixes, suffixes, ignored text, list fields and nesting.",
     ["inputs", "programs"], "all inputs, for derived types that combine the attributes (hand-written and generated)",
     "No test peeks a derived type directly; the derive macro generates the two functions separately.",
     [FN, EN] + ST, [("peek_impl and parse_impl are generated side by side", FN)], ["Parse::peek", "Parse::parse", "Cursor::position"],
     "types whose fields convert are outside: peek does not convert, by design; found and repaired here: list fields peeked as plain repetitions without separators")
prop("C14", "A derived struct parses its parts in the declared order",
     "A derived struct parses its prefix, then each field in declaration order with that field's own prefix and suffix around it, then its suffix, using for each field the parser given or the field's type. It succeeds exactly when all parts match in that order, puts each value into the field it was parsed for, and consumes exactly the parts (with ignored text after each).",
     ["inputs", "programs"], "all inputs, for named, tuple, unit and generic structs over chars, bytes and user tokens (hand-written and generated)",
     "Tests parse a few matching texts; wrong order, wrong association of attributes and partial failures need every input and many attribute combinations.",
     [FN, ATT] + ST, [("FnImpl::build: prefix, fields, suffix", FN), ("add_field / add_fix", FN)], ["the value", "success", "the rest of the buffer"],
     "each fixture is compared with a reference grammar on all inputs up to the listed lengths")
prop("C15", "A derived enum takes the first variant that matches",
     "A derived enum tries its variants in declaration order, each from the same place in the input, and yields the first one whose parts all match, with the enum's prefix before and suffix after it. A variant that fails part-way, conversions included, leaves no trace: the next one starts from the same input.",
     ["inputs", "programs"], "all inputs, for enums with unit, tuple and named variants that overlap and share prefixes (hand-written and generated)",
     "Tests use variants that differ in their first character, so backtracking over consumed input is not observable.",
     [FN, EN], [("variants run on a cursor that is reset before each", FN)], ["the variant and value", "the rest of the buffer"],
     "each fixture is compared with a reference grammar on all inputs up to the listed lengths")
prop("C16", "A derived list field reads its list by the declared rules",
     "A field with an inner parser collects elements with or without a separator; trailing \"no\" leaves a trailing separator unread, \"yes\" takes only elements followed by a separator, \"maybe\" takes a trailing separator if it is there. The elements appear in order, converted to the field's element type, and the parts around the list are parsed as usual.",
     ["inputs", "programs"], "all inputs, for list fields of every kind, with and without ignored text, in structs and variants",
     "Tests use one text per kind; separators that look like elements, ignored text at the ends and lists that stop early need every input.",
     [FN, VEC, ATT], [("parse_vec_call picks the list function", FN), ("parse_trailing", ATT)], ["the value", "the rest of the buffer"],
     "each fixture is compared with a reference grammar on all inputs up to the listed lengths")
prop("C17", "The list functions honour separator, trailing rule, maximum and ignored text",
     "Each list function returns, for every input, exactly the elements its rule describes (plain, separated, separated with a required or an optional trailing separator), never more than the maximum, with ignored text allowed around separators and between elements. It consumes exactly those elements and what its rule says goes with them, leaves a dangling separator or half an element unread, and fails only when an element's conversion fails.",
     ["inputs", "configurations"], "all inputs and maxima (0 upward and unlimited), for elements, separators and ignored text that overlap",
     "Seven tests use one text each with well-separated elements.",
     [VEC], [("parse_vec, parse_vec_seperated_by, ..._trailing, ..._maybe_trailing", VEC)], ["the returned vector", "the rest of the buffer"],
     "four element kinds (letters, words, numbers with failing conversions, elements overlapping the separator) by four rules, chars and bytes")
prop("C18", "Ignored text is skipped after every part, and only there",
     "In a derived type with ignored parsers, any sequence of matches of any of them is skipped after each part: prefix, field prefix, field, list separator, field suffix, suffix. It is not skipped before the first part, never inside a part, and a partial match of an ignored parser is not consumed; variants add their own ignored parsers to those of their enum.",
     ["inputs", "programs"], "all inputs, for structs and enums with one or more ignored parsers, including multi-character ones that overlap the parts",
     "Tests put one blank in a few places; which places skip and which do not, and partial matches, need all inputs.",
     [FN, ATT], [("__ParseIgnore and after_each", FN), ("extend_with merges ignores into variants", ATT)], ["the value", "success", "the rest of the buffer"],
     "found and repaired here: ignored text was not skipped after a list field")
prop("C19", "parse and parse_terminated accept exactly a prefix or the whole input",
     "The top-level parse succeeds exactly when a prefix of the input matches, and returns its value. parse_terminated succeeds exactly when that match is the whole input, returns the same value, and reads at most one item beyond the match to find out.",
     ["inputs"], "all inputs, for tags, repetitions, options, negated runs, line endings, bytes, structs, lists, enums and a recursive type",
     "Tests call both on a few texts that match entirely.",
     [LIB], [("parse / parse_terminated", LIB)], ["the result", "items pulled from the source"], "all inputs up to the listed lengths")
prop("C20", "Values are converted faithfully or the parse fails",
     "Text read as a number has the decimal value of its digits when that fits the machine word and is an error otherwise, leading zeros and sign included, never a wrong value or a panic. A failing conversion fails the field (or variant, or list) it belongs to, and text parsed into a string or character is unchanged.",
     ["inputs"], "all digit strings up to the bound, including all values around 2^64, in fields, variants and lists",
     "Tests convert three small numbers; overflow and failing conversions are not exercised.",
     [TXT[2], FN, VEC], [("TryFrom<AnyOf1> for usize", TXT[2]), ("try_into()? after each field", FN)], ["the value", "success"],
     "numbers: up to six free digits after six fixed beginnings, among them 2^64-1 with its last digits free")
prop("C21", "No memory errors and no leaks on any input",
     "Whatever the input, parsing and peeking never read uninitialised or freed memory, never read or write outside an allocation and never free twice; when the result and the buffer are dropped, everything allocated on the way has been released, also when the parse fails part-way through containers of heap-owning values.",
     ["inputs"], "all inputs, for every built-in and derived fixture and for elements that own heap memory",
     "Tests do not run under a memory checker and hardly take failure paths with owned values.",
     [IMP, BUF, VEC, FN], [("containers own what they have parsed", IMP)], ["every memory access", "live allocations before and after"],
     "every load, store, copy and free of every explored path is checked against its allocation, its initialisation and its lifetime")
prop("C22", "Parsing always terminates without panicking",
     "For every finite input, parsing and peeking return: they do not panic, overflow, loop for ever or recurse without consuming input, whether the input matches, is cut short anywhere or is garbage, and a failed parse leaves the buffer usable. (Repeating or making optional a parser that can succeed on nothing is documented to panic and excluded.)",
     ["inputs"], "all inputs including empty and truncated ones, for every built-in and derived fixture",
     "Tests feed well-formed text; hangs and panics hide in truncated or malformed input.",
     [IMP, FN, VEC] + TXT + BYT, [("every loop consumes an item or ends", IMP)], ["that each call returns"],
     "found and repaired here: peeking while-not-one at the end of the input did not terminate")
prop("C23", "A parser's result depends only on the items ahead of it",
     "A parser gives the same result, parsing as well as peeking, and consumes the same items whether it reads from a fresh buffer, a buffer with some or all of its items already read ahead, a cursor, a nested cursor or a cursor that was moved before. On a cursor it leaves the buffer untouched, and jumping the buffer by the cursor's position has the effect of parsing on the buffer itself.",
     ["inputs", "configurations"], "all inputs, for every built-in and derived fixture, in five buffering contexts",
     "Tests run each parser in one context, mostly a fresh buffer.",
     [BUF, IMP, FN], [("Buffer is implemented by Buf and Cursor separately", BUF)], ["the value", "the rest of the buffer and cursor"],
     "all inputs up to the listed lengths, every amount of read-ahead")
prop("C24", "Recursive grammars are parsed to the right depth",
     "A derived type that contains itself (through a box, an option or a list) accepts exactly the texts of its recursive grammar, to any depth, and returns the nested value with every level in its place; unbalanced or truncated text is an error, or ends the match at the last complete level, and never a wrong value. Peek and the buffering context agree with parse at every depth.",
     ["inputs"], "all inputs for an expression, a chain and a JSON-like grammar",
     "One example parses fixed JSON; nesting errors need all combinations of brackets.",
     [FN, EN, "nommy-derive/src/ty.rs"], [("where clauses leave the type itself out", "nommy-derive/src/ty.rs")], ["the value", "success", "the rest of the buffer"],
     "depth is bounded by the input length")
prop("C25", "An error from a derived parser names the part that failed",
     "When a derived parser fails, its error message names the outermost part that could not be parsed: the prefix or suffix of the struct or enum, the prefix, value or suffix of the field by name (elemN in tuples), or that no variant matched. It never names a part that matched or one that was not reached.",
     ["inputs"], "all failing inputs, for structs, tuples, unit structs, list fields, enums and nested types",
     "Tests look at one message of one tag.",
     [FN], [("messages given to wrap_err and eyre!", FN)], ["the error's text"],
     "the message is built by the real formatting code (no stub) and compared character by character; the wording of the messages is the one documented by the code")

prop("C26", "An error tells what was expected and what was found, down to its cause",
     "The chain of causes of a parse error leads from the outermost part that failed, part by part (the value of a field of a derived type, the element of an array by its index), to the parser that refused the input, and that parser's message says what it expected and what the input had instead: a tag and the text found in its place (cut short only by the end of the input), a set and the item found or the end of the input, or what kind of thing was missing. No cause is added, lost or taken from another place of the input; a field whose text is no number of its type ends with the conversion's own error; and parse_terminated says when input is left over.",
     ["inputs", "programs"], "all failing inputs, for built-in parsers, combinators, arrays, and structs, tuples and enums nested in one another",
     "Tests look at the outer message of four inputs; what is reported depends on where in nested parsers the input stops matching and on what is there.",
     TXT + BYT + [IMP, FN], [("messages of the leaf parsers", TXT[0]), ("wrap_err of field values", FN), ("wrap_err of array elements", IMP)], ["eyre::Report::chain of the error"],
     "the messages are built by the real formatting code (no stub) and compared byte by byte with the wording the code documents; chars are ASCII here")

prop("C27", "Repeating a parser that matched nothing is stopped by a panic, not repeated for ever",
     "In builds with debug assertions, when a parser inside a vector, an at-least-one vector or an optional, or an ignored parser of a derived type, succeeds without reading anything, parsing and peeking stop with a panic at that point instead of repeating it for ever; and they stop only then: as long as every repeated, optional or ignored match reads something they return the ordinary result.",
     ["inputs", "programs"], "all inputs, for combinators over parsers that can match nothing, nested in one another and in derived types",
     "One documentation test repeats an optional tag on one text; whether an inner parser matches nothing depends on the input, and each of the guards (parse and peek of three combinators, and the ignores) must notice it.",
     [IMP, FN], [("guards on cursor.position() == 0", IMP), ("guard in the generated __ParseIgnore", FN)], ["a panic of parse and peek"],
     "in builds without debug assertions such a repetition does not end, as documented; the list functions called directly with elements that can match nothing have no guard and are outside the claim")

NOT_APPLICABLE = []
json_lines = []
for p in P:
    q = {k: v for k, v in p.items() if k != "note"}
    json_lines.append(json.dumps(q))
open(os.path.join(V, "properties.jsonl"), "w").write("\n".join(json_lines) + "\n")
checks = []
for p in P:
    if p["id"] not in jobs.PROPS:
        continue
    checks.append(dict(property=p["id"], quick_cmd="python3 check.py %s" % p["id"], thorough_cmd="python3 check.py %s thorough" % p["id"],
                       evidence_file="evidence/%s.json" % p["id"],
                       technique="symbolic execution of nommy's LLVM bitcode (own engine) with Z3, against reference grammars/models",
                       level="model_checking",
                       level_note="Holds for every input/history within the bounds in the evidence file, on all feasible paths, as decided by the SMT solver; counterexamples are replayed on the real code. Not a claim beyond the bounds. "
                                  + p["note"][0].upper() + p["note"][1:] + ". Trusted: rustc's IR, the engine (validated by replaying sampled paths natively), Z3, two stubs (see DESIGN.md)."))
man = dict(version=1, setup_cmd="python3 lib/build.py", checks=checks, not_applicable=NOT_APPLICABLE,
           notes="No hooks in /repo: the harness crate uses the public API and the derive macro. See DESIGN.md.")
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "checks")
