#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below."""
import json, os
P = "vtdxml/parser/"; N = "vtdxml/navigation/"; B = "vtdxml/buffer/"; R = "vtdxml/reader/"; C = "vtdxml/common/"; E = "vtdxml/erroring/"
def mech(*a): return [{"name": n, "where": w} for n, w in a]
props = [
("C01", "Arbitrary input never crashes, hangs or exhausts memory",
 "For every byte sequence, document window and combination of options, constructing a parser, parsing, and afterwards navigating and extracting strings returns a result or an error. It never panics, never ends the process, never fails to terminate, and never uses memory out of proportion to the size of the input, and keeps none of it once all results have been dropped.",
 ["inputs","configurations"], "every byte string (well formed, malformed, truncated, binary), every offset/length window, namespace awareness on or off, location cache depth 3 or 5, every order of navigation calls afterwards",
 "The tests parse sixteen fixed files; slice indices, buffer pages and state transitions depend on where an arbitrary byte lands.",
 [P+"parse.go",P+"common.go",P+"process*.go",R+"*.go",N+"*.go",B+"*.go"],
 mech(("bounded readers", R+"utf8_reader.go, ascii_reader.go: every read checks the end offset"),("state machine", P+"parse.go: each state consumes input or returns an error"),("paged buffers", B+"*.go: index checks"))),
("C02", "Every well-formed document is accepted",
 "Every well-formed XML 1.0 document in UTF-8 or ASCII that uses only built-in and character references and stays within the documented limits (nesting depth 255, name and value lengths, total size) is parsed without an error. This holds for the XML declaration in all its forms, document type declarations, comments, processing instructions, CDATA sections, empty and nested elements, attributes in either quote style, and whitespace wherever the grammar allows it.",
 ["inputs","configurations"], "all well-formed documents within the limits, with namespace awareness on (namespace-well-formed documents) and off, location cache depth 3 and 5",
 "Tests accept nine sample files; the grammar's combinations (order of markup, whitespace, quotes, epilog, nesting, sizes) are unbounded.",
 [P+"process*.go",P+"parse.go",P+"common.go",C+"xml_char.go"],
 mech(("parser states", P+"process_*.go: one function per production"),("character classes", C+"xml_char.go"))),
("C03", "Documents violating well-formedness are rejected",
 "A document that violates a well-formedness rule of XML 1.0 is reported with an error and never accepted: mismatched, missing or stray tags, more or less than one root element, text outside the root, duplicate attributes, missing quotes, '=' or required whitespace, '<' or a bare '&' in character data or attribute values, undefined or malformed references, ']]>' in text, '--' in comments, misplaced or malformed XML declarations, reserved processing instruction targets, illegal name characters and illegal characters. Document type internals and the XML 1.1 control characters are outside this guarantee.",
 ["inputs","configurations"], "every violation of the listed kinds at every position of every document, namespace awareness on and off, location cache depth 3 and 5",
 "Tests reject seven files that each break one rule at one place; a rule can be enforced at one site and missed at another (after an end tag, after an empty element, in the epilog, behind a comment).",
 [P+"process*.go",P+"common.go"],
 mech(("parser states", P+"process_*.go"),("entityIdentifier", P+"common.go: references"),("checkAttrUniqueness", P+"process_attr_name.go"),("tag stack comparison", P+"process_end_tag.go"))),
("C04", "The token stream records exactly the markup of the document",
 "For every accepted document the navigator exposes exactly the document's tokens in document order: the document itself, declaration attributes, element names, attribute and namespace declaration names, attribute values, text, CDATA, comments, processing instruction targets and data, and document type. Each token has the right type, byte offset, byte length (for names the length without the qualifier split in plain mode) and nesting depth, and none is missing, duplicated or invented; whitespace-only text is recorded only when it is the entire content of an element.",
 ["inputs","configurations"], "all accepted documents, both namespace modes, both location cache depths, document windows at any offset",
 "Tests never compare the token stream of a parsed document; offsets, packed lengths and depths must be right for every layout of markup.",
 [P+"common.go",P+"process*.go",N+"common.go",C+"common.go"],
 mech(("writeVtd", P+"common.go: packs type, depth, prefix/qname length and offset in 64 bits"),("GetToken*", N+"common.go: unpacks them"))),
("C05", "Namespace well-formedness is enforced in namespace-aware mode",
 "With namespace awareness on, a document is rejected exactly when it is not namespace-well-formed: an element or attribute prefix without a declaration in scope, two attributes of an element with the same local name and the same namespace name (compared after resolving references), an empty binding of a prefix, a declaration of or element with the prefix xmlns, the prefix xml bound to another name, or another prefix or the default bound to a reserved namespace name. Declarations take effect for the element that carries them and its descendants only, inner declarations override outer ones, and with namespace awareness off none of this is checked.",
 ["inputs","configurations"], "all documents with any arrangement of declarations, prefixes, scopes, siblings and redeclarations; namespace awareness on and off",
 "Tests contain no document that violates a namespace rule; scoping depends on the whole history of opened and closed elements.",
 [P+"process_attr_name.go",P+"process_attr_val.go",P+"process_start_tag.go",P+"common.go"],
 mech(("namespace buffers", P+"process_start_tag.go: nsBuffer1..3 hold the declarations in scope and are cut back per depth"),("qualifyElement, qualifyAttributes, checkQualifiedAttributeUniqueness", P+"common.go, process_attr_val.go"),("identifyNsUrl, matchUrl", P+"process_attr_val.go"))),
("C06", "Cursor navigation agrees with the element tree",
 "For every accepted document and every sequence of moves to root, parent, first child, last child, next sibling or previous sibling, a move succeeds exactly when the element tree has such an element and then the cursor is on it; otherwise the move reports failure and the cursor stays where it was. The cursor starts on the document, root always succeeds, and the parent of the root is the document.",
 ["histories","inputs","configurations"], "all documents (any shape and depth) and all sequences of moves, location cache depth 3 and 5",
 "No test moves a cursor; the move logic changes with the level (location caches for levels 1 to 3, scanning below) and keeps state between moves.",
 [N+"to_element.go",N+"common.go",P+"common.go"],
 mech(("location caches", P+"common.go: writeVtdL3/L5 and finishUp link parents to first children"),("cursor state", N+"to_element.go: context, l1index..l3upper"))),
("C07", "Location cache, namespace and reuse options do not change results",
 "Parsing the same document with location cache depth 3 or 5, with buffer reuse on or off, or through a whole-document or an equal offset/length window gives the same acceptance, tokens, strings and navigation. Namespace awareness may only turn acceptance into rejection for namespace errors and change how name lengths are reported; it changes nothing else for documents that use no prefixes.",
 ["configurations","inputs","histories"], "all documents, all pairs of option combinations",
 "Tests use the defaults; each option selects different buffers, page sizes and code paths.",
 [P+"vtd_parser.go",P+"init.go",P+"common.go",N+"to_element.go"],
 mech(("initWithShallowDepth / initWithoutShallowDepth", P+"init.go: page sizes"),("writeVtdL3 / writeVtdL5", P+"common.go"))),
("C08", "String extraction returns the document's text",
 "For every token the raw string is exactly the token's bytes with carriage returns normalised to line feeds, and the resolved string of text and attribute values additionally replaces each built-in and numeric character reference by the UTF-8 form of its character; the resolved string of any other token equals its raw string. Extraction by byte range behaves the same way for every range inside the document.",
 ["inputs"], "all tokens of all accepted documents and all byte ranges within them",
 "Tests extract fixed ranges from one file without references.",
 [N+"to_string.go",N+"get_char_resolved.go"],
 mech(("getCharResolved, resolveEntity", N+"get_char_resolved.go"),("ToString*/ToRawString*", N+"to_string.go"))),
("C09", "Nothing outside the document window is read or matters",
 "When a parser is given an offset and length into a larger byte slice, the result depends only on the bytes inside that window: acceptance, errors, tokens relative to the window, strings and navigation are the same whatever surrounds it, and the same as for a stand-alone copy of the window. No byte outside the window is read while parsing, and no byte beyond the slice is ever read.",
 ["inputs","configurations"], "all documents (well formed, malformed, truncated), all windows and all surrounding bytes, both namespace modes, both cache depths",
 "Tests only parse whole slices, where over-reads hit a slice bound or nothing at all.",
 [P+"vtd_parser.go",P+"common.go",R+"utf8_reader.go",R+"ascii_reader.go",P+"process_end_tag.go"],
 mech(("endOffset checks", R+"*.go"),("byteAt, decideEncoding", P+"common.go"),("end tag comparison", P+"process_end_tag.go: bounds before comparing"))),
("C10", "Size limits: exact at the limit, clean errors beyond it",
 "Text, CDATA and comments of any length are recorded completely, in contiguous pieces whose total length is reported at the first piece; attribute values, processing instructions and document types up to 1048575 bytes, prefixes up to 511 bytes, names up to 2047 bytes and nesting up to 255 elements are recorded exactly. One step beyond any of these limits is an error rather than a wrong token, and offsets are exact up to the documented maximum document size of 1 GB (2 GB without namespaces), at which larger documents are refused.",
 ["inputs","configurations"], "token lengths around the packing limits, nesting depths around 255, offsets up to 2 GB; both namespace modes and cache depths",
 "Tests use small files; the packed 64-bit token fields overflow only for sizes no test has.",
 [P+"common.go",P+"process_start_tag.go",P+"process_attr_name.go",N+"common.go",C+"common.go"],
 mech(("writeVtdText, writeVtdWithLengthCheck", P+"common.go"),("depth, prefix and qname checks", P+"process_start_tag.go, process_attr_name.go"),("masks", C+"common.go"))),
("C11", "Integer and long buffers behave as lists",
 "For every page size and every sequence of appends, modifications, reads, size reductions, clears and conversions, the integer and long buffers hold exactly the values a plain list would: reads return the last value written at that index, array conversion returns all values in order, the halves of a long are its exact upper and lower 32 bits. Indices outside the current size are refused with an invalid-argument error, also after the buffer has been reduced or cleared, and a requested size that is negative or larger than the current one changes nothing.",
 ["histories","configurations"], "all operation sequences, all page size exponents, sizes crossing many pages",
 "Tests perform a handful of operations on buffers of one or two pages.",
 [B+"int_buffer.go",B+"long_buffer.go"],
 mech(("paging", B+"*.go: index >> exp selects the page, index & r the entry"),("capacity", B+"*.go: Append adds a page when size reaches capacity"))),
("C12", "The byte buffer gives bounds-checked views of its bytes",
 "For every byte slice, index, offset and length, the byte buffer returns exactly the addressed byte or the addressed consecutive bytes when they lie inside the slice, and an invalid-argument error for every negative, overflowing or outside position; size queries and the whole-content view always match the original slice. Slices of zero length are outside this guarantee.",
 ["inputs"], "all slices, indices, offsets and lengths including extreme integers",
 "Tests sample a few positions.",
 [B+"byte_buffer.go"], mech(("ByteAt, GetByteSlice", B+"byte_buffer.go: range checks"))),
("C13", "The object buffer stores and returns the same objects in order",
 "For every page size and every sequence of appends, modifications, reads, page reductions and clears, the object buffer returns at each index the object last stored there and refuses all other indices with an invalid-argument error. Its size counts pages: reducing it drops whole pages from the end and clearing drops all, after which appended objects start at the first free index.",
 ["histories","configurations"], "all operation sequences and page size exponents",
 "Tests stay within the first page.",
 [B+"object_buffer.go"], mech(("paging", B+"object_buffer.go"))),
("C14", "Character classes are exact for every code point",
 "For every 32-bit value the classifications as valid character, whitespace, name start character, name character and content character agree with the XML specification (name classes of XML 1.0 fifth edition, valid characters of XML 1.1, content characters being the valid ones except '<', '&' and ']'). The answers do not depend on earlier queries or on which classifier instance is asked.",
 ["inputs"], "all 1114112 code points and the values beyond them",
 "Tests check a few letters.",
 [C+"xml_char.go"], mech(("range tables", C+"xml_char.go"))),
("C15", "Readers deliver characters in sequence and stay in bounds",
 "For every document, window and sequence of operations, the UTF-8 and ASCII readers return exactly the next character and advance past it, report the end of the window with an end-of-file error, report undecodable input with an error, advance on a skip only if the complete character or sequence is there, and leave the position alone otherwise. Positional reads never move the reader, decode the character at the given offset (line endings normalised and the consumed width returned in the long form) and refuse offsets outside the document with an error.",
 ["histories","inputs"], "all byte strings, windows and operation sequences",
 "Tests read a few ASCII characters.",
 [R+"utf8_reader.go",R+"ascii_reader.go"], mech(("GetChar, SkipChar, SkipCharSeq, GetCharAt, GetLongCharAt", R+"*.go"))),
("C16", "Encodings are recognised, decoded and refused correctly",
 "UTF-8 documents with or without byte order mark, and with an encoding declaration that says UTF-8 in any letter case, are decoded for every Unicode character, and ASCII declarations (ASCII, US-ASCII, any case) restrict the document to ASCII. Invalid UTF-8 anywhere, non-ASCII bytes in a document declared ASCII, UTF-16 input, contradictory and unsupported declared encodings are refused with an error; the navigator reports the encoding in effect.",
 ["inputs","configurations"], "all characters and all invalid byte sequences at all positions, all declared encodings, with and without byte order mark",
 "Tests use ASCII-only content with UTF-8 declarations.",
 [P+"common.go",P+"process_dec_attr_name.go",R+"utf8_reader.go",R+"ascii_reader.go"],
 mech(("decideEncoding", P+"common.go"),("check*Encoding", P+"process_dec_attr_name.go"),("decodeAt", R+"utf8_reader.go"))),
("C17", "Failures are reported with the documented error types and positions",
 "Every failure is returned as exactly one of the library's error types, matched with errors.As: running out of input inside text, names, attribute values, comments, CDATA sections or processing instructions as an end-of-file error (possibly wrapped), bad references in content as an entity error, the known but unsupported encodings (UTF-16, ISO-8859, windows code pages) as an encoding error, arguments outside their domain as an invalid-argument error, illegal moves as a navigation error (and never as a move that succeeded), violated grammar as a parse error. A line number given in a parse error is a line of the document not before the one where the offending markup starts and not behind the one where the violation can be told (for most rules the line of the offending character, for rules about a tag or other markup as a whole the line where it ends), and exactly the line of an illegal character in text, attribute values or comments; constructed errors keep their message, fields and cause.",
 ["inputs"], "all failing documents and calls; violations at every position",
 "Tests compare the type for a few calls and never the position.",
 [E+"erroring.go",E+"messages.go",P+"common.go"], mech(("error constructors", E+"erroring.go"),("fmtLine", P+"common.go"))),
("C18", "Independent parsers and navigators can run concurrently",
 "Any number of goroutines may each construct, run and query their own parser and navigators, including over the same shared document bytes and including several navigators obtained from one parsed document, with no data race. Each obtains exactly the result it would obtain alone.",
 ["schedules","inputs"], "all interleavings of parsers and navigators in different goroutines over shared bytes",
 "Tests run sequentially; a package-level variable or shared buffer only shows under concurrency.",
 [P+"*.go",N+"*.go",E+"erroring.go",C+"xml_char.go"], mech(("no shared mutable state", "all state in VtdParser / VtdNav; buffers only read after parsing"))),
("C19", "Parsing is pure and deterministic",
 "Parsing and querying never modify the caller's bytes, never write to standard output, standard error or files, and leave no goroutines behind. The result depends only on the document and the options: repeating it, in the same process, after other documents (accepted or failed) or in another process, gives identical acceptance, errors, tokens and strings.",
 ["histories","inputs"], "all documents, all histories of earlier parses in the process",
 "Tests do not look at the input afterwards, at the output streams, or repeat a parse.",
 [P+"*.go",N+"*.go",R+"*.go"], mech(("no global state", "packages hold only constants and error prototypes"))),
("C20", "Objects are usable exactly in their documented life cycle",
 "Constructors refuse nil or empty documents, negative offsets, lengths that are not positive or exceed the document, nil buffers and navigators, and negative depths with an invalid-argument error, and accept everything else. Navigation is available only after a successful parse, a parser parses one document only once (every later attempt gives the same internal error, whatever came of the first), and an error while parsing never leaves a usable navigator; modifiers are accepted for UTF-8 and ASCII navigators and refused with a modify error for other encodings. When an option is given several times the last one counts for a parser, and a nil navigator or unsupported encoding is refused also behind a valid one.",
 ["inputs","histories"], "all argument values and all orders of life cycle calls",
 "Tests cover a few constructor arguments.",
 [P+"vtd_parser.go",P+"get_nav.go",P+"parse.go",N+"vtd_nav.go","vtdxml/modifier/xml_modifier.go","vtdxml/pilot/auto_pilot.go"],
 mech(("validation", P+"vtd_parser.go NewVtdParser, "+N+"vtd_nav.go NewVtdNav"),("started/parsed flags", P+"parse.go"))),
("C21", "Truncated documents are never accepted",
 "Cutting any well-formed document at any byte before the end of its root element, or inside a comment or processing instruction behind it, always gives an error, and cutting it behind the root between two complete items gives an accepted document with the same tokens up to the cut. A truncation never produces a crash, an empty success or tokens that reach beyond the cut.",
 ["crash_points","inputs"], "every cut position of every well-formed document, both namespace modes and cache depths",
 "Tests contain no truncated document; the end of input can be met in every parser state.",
 [P+"parse.go",P+"process_doc_end.go",R+"*.go"], mech(("EOF only accepted in the document end state", P+"parse.go"),("EOFError", R+"*.go"))),
("C22", "Queries are read-only and cursors are independent",
 "Token queries and string extraction never move the cursor, never change the answer of any other query, and always give the same answer when repeated, in any order and mixed with moves. Moves of one navigator never affect another navigator of the same document, and token indices outside the recorded tokens are refused with an invalid-argument error.",
 ["histories","inputs"], "all sequences of queries and moves on one or several navigators of any document",
 "Tests call each query once on a fresh navigator.",
 [N+"common.go",N+"to_string.go",N+"to_element.go",P+"get_nav.go"], mech(("per-navigator cursor", N+"vtd_nav.go"),("read-only buffers", B+"long_buffer.go LongAt"))),
("C23", "Parsing cost grows linearly with the document",
 "For documents of the same kind (with a bounded number of attributes per element and of declarations in scope), the memory allocated and the processing done by parsing grow linearly with the document's length. This holds for long texts, many siblings, deep nesting, many comments, references or attributes spread over elements, and for failing documents as well as accepted ones.",
 ["inputs"], "document families scaled over several orders of magnitude, both cache depths and namespace modes",
 "Tests use files of a few kilobytes, where quadratic work is invisible.",
 [P+"*.go",B+"long_buffer.go",R+"*.go"], mech(("single pass", P+"parse.go"),("amortised paging", B+"long_buffer.go Append"))),
]
out = []
for pid,title,stmt,over,qt,why,files,m in props:
    assert len(title) <= 80, (pid, len(title))
    out.append({"id":pid,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":{"files":files,"mechanism":m,"hook_needed":None}})
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for o in out: f.write(json.dumps(o)+"\n")
