#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list is easy to review)."""
import json
P = "vtdxml/parser/"
N = "vtdxml/navigation/"
B = "vtdxml/buffer/"
R = "vtdxml/reader/"
props = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": m, "where": files[0]} for m in mech]}
    if observe: a["observe_at"] = observe
    if hook: a["hook_needed"] = hook
    props.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": qtext},
                  "why_tests_cant": why, "anchors": a})
HOOK = "read access to the token stream after Parse (build tag verif)"
SEVEN = "The tests parse 9 valid and 7 invalid files and look only at the error; "

p("C01", "Parsing any bytes ends with a result, never a panic or a hang",
  "For every byte sequence, document window and combination of options, creating a parser and parsing ends in bounded time with success or with an error; it never panics, loops for ever or exhausts memory. The same holds for documents cut off at any byte and for documents with any byte replaced, inserted or deleted.",
  ["inputs", "configurations"], "all byte strings up to a length over the markup alphabet, all single-byte edits and all truncations of feature-covering documents, all option combinations",
  SEVEN + "every panic found so far needed an input that is malformed in a particular place.",
  [P + "parse.go", P + "common.go", P + "process_lt_seen.go", P + "process_end_tag.go", P + "vtd_parser.go", R + "utf8_reader.go"],
  ["state machine in Parse", "index arithmetic on the document bytes", "tag stack indexed by depth"])
p("C02", "Element structure decides acceptance: matched, nested, one root",
  "With namespace awareness off, a document made of element tags, text, comments, CDATA sections and processing instructions is accepted exactly if every start tag has a matching end tag with the identical name in the right nesting order, there is exactly one root element, and no text, reference or CDATA section stands outside it. Whitespace is allowed where XML allows it inside tags and around the root, and nowhere else.",
  ["inputs"], "all documents built from tag, name, whitespace and text fragments up to a length, including every one-fragment deviation from a well-formed prefix",
  SEVEN + "none has a mismatched or missing tag.",
  [P + "process_start_tag.go", P + "process_end_tag.go", P + "process_element_tail.go", P + "process_lt_seen.go", P + "process_doc_end.go", P + "process_text.go"],
  ["tag stack", "depth counter", "parser states"])
p("C03", "Attribute syntax: name, equals sign, quotes, separation, no duplicates",
  "A start tag or empty-element tag with attributes is accepted exactly if its attributes are separated by whitespace, each is a name, an equals sign and a value in matching quotes, the value contains no raw less-than sign, and no two attributes of the tag have the same name. This holds for any number, order and placement of attributes in the document.",
  ["inputs"], "all attribute lists built from name, quote, equals, whitespace, less-than and other fragments up to a length; all sequences of attribute names over a small name set, with 1 to several hundred attributes",
  SEVEN + "no invalid attribute is among them.",
  [P + "process_attr_name.go", P + "process_attr_val.go", P + "process_start_tag.go"],
  ["attribute name table per element", "quote character remembered during the value"])
p("C04", "References: five built-in entities, numeric references to legal characters",
  "In text and in attribute values an ampersand is accepted exactly if it starts one of the five predefined entity references or a decimal or hexadecimal character reference, closed by a semicolon, to a code point that XML allows; every other ampersand is rejected, including references to zero, to surrogates and to numbers beyond U+10FFFF of any size. References have no meaning and no restriction inside comments, CDATA sections and processing instructions.",
  ["inputs"], "all strings after an ampersand over the entity alphabet up to a length, all boundary code points in decimal and hexadecimal with leading zeros, in every context",
  "No test contains an invalid reference and the valid files use a handful.",
  [P + "common.go", P + "process_attr_val.go", P + "process_text.go", P + "process.go", P + "process_end_tag.go", P + "process_element_tail.go"],
  ["entity recogniser shared by text and attribute values"])
p("C05", "Comments, CDATA, processing instructions and text end where XML says",
  "A comment ends at the first double hyphen, which must be followed by a greater-than sign; a CDATA section ends at the first ]]>; a processing instruction ends at the first ?>, has a legal target that is not xml in any case, and whitespace before its value; text may not contain ]]>. The same rules decide acceptance before, inside and after the root element and directly after any other markup.",
  ["inputs"], "all contents over the delimiter alphabet up to a length, in each of prolog, content and epilog and after each kind of preceding markup",
  SEVEN + "one checks a bad comment; none has a delimiter look-alike.",
  [P + "process_start_comment.go", P + "process_end_comment.go", P + "process_cdata.go", P + "process_pi_tag.go", P + "process_pi_val.go", P + "process_pi_end.go", P + "process.go", P + "common.go"],
  ["three separate implementations of each terminator (prolog/content, epilog)"])
p("C06", "XML declaration, byte order mark and document type declaration",
  "A document may start with a UTF-8 byte order mark and then an XML declaration, which is accepted exactly if it has version 1.0 or 1.1, then optionally an encoding among UTF-8 (any case), ascii and us-ascii, then optionally standalone yes or no, in this order, whitespace-separated, in matching quotes; any other encoding name is rejected. A document type declaration is accepted before the root element and rejected inside or after it, and an XML declaration anywhere but at the very start is rejected.",
  ["inputs"], "all declarations built from the declaration vocabulary up to a length, with every one-fragment deviation; document type declarations at every position",
  "Six tests check one malformed declaration each; nothing tests the byte order mark, DOCTYPE or ASCII.",
  [P + "process_dec_attr_name.go", P + "process_doc_start.go", P + "process_doc_type.go", P + "common.go", P + "process_lt_seen.go"],
  ["encoding decision from the first bytes", "reader switch for ASCII"])
p("C07", "Only legal characters in legal UTF-8 are accepted, everywhere",
  "A document is rejected if it contains malformed UTF-8 or a code point that no XML version allows (zero, surrogates, U+FFFE, U+FFFF) in any syntactic position, or a byte above 127 after declaring ASCII. Any other printable character is accepted in text, attribute values, comments, CDATA sections and processing instructions, and names may use exactly the name characters of XML, in particular non-ASCII ones.",
  ["inputs"], "every boundary code point of the character classes and every class of malformed UTF-8 sequence, in every syntactic position",
  "All test files are ASCII.",
  [R + "utf8_reader.go", R + "ascii_reader.go", "vtdxml/common/xml_char.go", P + "process_start_tag.go", P + "process_attr_name.go"],
  ["UTF-8 decoding in the reader", "character class tables"])
p("C08", "The token stream describes the document exactly",
  "After a successful parse the token stream lists, in document order, the document token and then each declaration attribute, start tag, attribute name (or namespace declaration) and value, text, CDATA section, comment, processing instruction and DTD with its type, nesting depth, byte offset, byte length and (for names) prefix length. Text tokens span everything between two pieces of markup; whitespace-only text is left out except directly between a start tag and an end tag, where a possibly empty text token is written.",
  ["inputs", "configurations"], "all accepted documents of the explored spaces of C02 to C07, both location-cache modes, with and without namespace awareness",
  "No test reads the token stream that Parse produces.",
  [P + "common.go", P + "process_start_tag.go", P + "process_attr_name.go", P + "process_attr_val.go", P + "process_text.go", P + "process_cdata.go", P + "process_element_tail.go", P + "process_dec_attr_name.go", "vtdxml/common/common.go"],
  ["64-bit token records", "offset and length bookkeeping in each parser state"], ["token buffer"], HOOK)
p("C09", "Namespace prefixes must be declared in scope",
  "With namespace awareness on, a document whose names have at most one colon is accepted exactly if, besides being well-formed, every element and attribute prefix is xml or is bound by a namespace declaration on the same element or an enclosing one. Declarations end with their element and are not visible to siblings; prefixes cannot be bound to the empty name, xmlns cannot be an element prefix or be declared, xml can only be bound to its own namespace name, and neither reserved namespace name can be bound to anything else.",
  ["inputs"], "all element trees up to a size with all assignments of prefixes and declarations over a small prefix set, reserved names in all spellings including references",
  "The namespace tests parse the same valid files; none has an undeclared prefix or a reserved name.",
  [P + "process_attr_val.go", P + "process_attr_name.go", P + "process_start_tag.go", P + "common.go"],
  ["three namespace buffers truncated by depth", "prefix comparison on document bytes"])
p("C10", "No two attributes of an element with the same expanded name",
  "With namespace awareness on, an element is rejected if two of its prefixed attributes have the same local name and prefixes bound to the same namespace name, and is not rejected for that reason otherwise. Namespace names are equal if they are equal after references are resolved, whichever element declared them, and the rule holds for any number and order of attributes and for every element of the document.",
  ["inputs"], "all sequences of prefixed attributes and declarations over small sets of prefixes, local names and namespace names in several spellings, on one element and on nested and successive elements",
  "No test has two attributes with the same local name.",
  [P + "process_attr_val.go", P + "process_attr_name.go"],
  ["index of the declaration for each prefixed attribute", "namespace name comparison"])
p("C11", "A document window is parsed as if it were the whole document",
  "Parsing a window of a larger byte array given by offset and length gives the same verdict as parsing a copy of those bytes alone, and the same tokens with offsets shifted by the window's offset; bytes outside the window have no influence, also when the document in the window is incomplete. Windows with a negative offset, a length below one or an end beyond the array, and nil or empty documents, are rejected as invalid arguments when the parser is created.",
  ["inputs", "configurations"], "all windows over feature-covering documents embedded in every kind of surrounding bytes, all offset and length pairs around the limits including overflowing ones",
  "No test uses a window.",
  [P + "vtd_parser.go", P + "common.go", R + "utf8_reader.go", R + "ascii_reader.go"],
  ["offset and end offset handed to the reader", "argument validation"], None, HOOK)
p("C12", "Size limits: exact at the limit, rejected beyond it, pages never matter",
  "Elements nest up to 255 levels, names up to 2047 bytes with prefixes up to 511 bytes and attribute values and processing instructions up to 1048575 bytes are accepted and tokenised exactly, and one more is rejected with an error; text, comments and CDATA sections of any length are accepted and split into consecutive tokens of at most 1048575 bytes that cover them without gap or overlap. The number of tokens, attributes, elements and namespace declarations is not limited by internal page or table sizes.",
  ["inputs"], "every value around each limit and each internal size (32, 64, 128, 256, 2048, 4096, 32768 entries; document size classes), each alone",
  "The largest test file has 4 levels and a few hundred tokens.",
  [P + "common.go", P + "process_start_tag.go", P + "process_attr_name.go", P + "init.go", B + "long_buffer.go"],
  ["length fields of the token record", "fixed-size tables", "paged buffers chosen by document size"], ["token buffer"], HOOK)
p("C13", "Parsers are deterministic, independent and leave their input alone",
  "Parsing the same bytes with the same options gives the same verdict and the same tokens every time, whatever was parsed before and whatever other parsers do in between at any interleaving of their steps. Parsing never modifies the document bytes or bytes around the window, and writes nothing to standard output or standard error.",
  ["schedules", "histories", "inputs"], "all interleavings of two parsers up to a preemption bound at reader-call granularity, all ordered pairs and triples of documents parsed one after another",
  "Every test parses one document with one parser and never looks at it again.",
  [P + "parse.go", P + "vtd_parser.go", "vtdxml/common/xml_char.go", "vtdxml/erroring/erroring.go"],
  ["all state in the parser value, no package-level mutable state"], None, "seam at the byte reader (build tag verif)")
p("C14", "The five-level location cache mirrors the element tree",
  "After a successful parse with location cache depth 5, the cache of level k (1 to 4) holds one entry for each element at depth k in document order, made of the element's token index and the position of its first child in the next level's cache, or the no-child mark if it has none; level 5 holds the token indexes, and the root index is that of the root's start tag. This holds for every tree shape, whatever other markup is between the elements.",
  ["inputs"], "all ordered trees up to a number of elements, with elements in both tag forms, and all counts around the cache page sizes on each level",
  "No test reads the location cache.",
  [P + "common.go", P + "parse.go"],
  ["append of the previous entry when the next element of a level is seen", "flush at the end of the document"], ["location cache buffers"], HOOK)
p("C15", "Moving the cursor follows the element tree",
  "From every position reached by any sequence of moves, a move to root, parent, first child, last child, next sibling or previous sibling goes to exactly that element and reports true, or reports false and leaves the position unchanged if there is none; the parent of the root is the document position, whose child is the root. This holds at every level, above and below the levels that are cached, and an unknown direction is an error.",
  ["histories", "inputs"], "all sequences of moves up to a length on all ordered trees up to a size and on deep chains",
  "No test moves the cursor.",
  [N + "to_element.go", N + "vtd_nav.go", N + "common.go"],
  ["context array", "three cached levels with bounds for the current siblings", "token scan below level 3"])
p("C16", "Token accessors return exactly what the token record says",
  "For every token the type, depth (with -1 for the document level), offset and length accessors return the recorded values, for names the length combines the recorded prefix and name lengths when namespace-aware and is the name length otherwise; the length of a text, comment or CDATA token is the total of its consecutive parts and never includes another token. An index outside the token buffer is an invalid-argument error.",
  ["inputs"], "all combinations of boundary values of the record fields, all short sequences of text-like tokens with and without gaps, all indexes around the buffer ends",
  "The tests check about ten hand-picked records.",
  [N + "common.go", "vtdxml/common/common.go"],
  ["bit masks of the token record", "loop over continuation tokens"])
p("C17", "Strings come out byte for byte, references resolved",
  "For a document without carriage returns, the raw string of a token or range is exactly its bytes, and the string of a text or attribute-value token or range is those bytes with each predefined or numeric reference replaced by its character (in UTF-8) and nothing else changed; for other token types the string is the raw string. Ranges outside the document and malformed references are errors.",
  ["inputs"], "all texts built from plain characters, multi-byte characters and all kinds of references up to a length, at every position including the document's ends",
  "The tests extract strings without references from one file.",
  [N + "to_string.go", N + "get_char_resolved.go"],
  ["reference resolution with the number of bytes consumed"])
p("C18", "Long and int buffers behave like growable arrays",
  "For every sequence of append, read, modify, clear and shrink operations and every page size, the long and int buffers give the results of one growable array: an index at or beyond the current size or below zero is an invalid-argument error and changes nothing, entries keep the values last written, the halves of a long are exact, and the array conversions return exactly the current entries. Every page size either gives a buffer that works so or is rejected as an invalid argument when the buffer is created.",
  ["histories", "configurations"], "all operation sequences up to a depth for page sizes 1, 2, 4 and larger, against the array model",
  "The tests use one page that is never filled.",
  [B + "long_buffer.go", B + "int_buffer.go"], ["page number and offset computed from the index", "capacity in whole pages"])
p("C19", "The object buffer keeps every appended object",
  "For every sequence of append, read, modify and clear operations and every page size, reading an index returns the value last written there, an index beyond the number of appended objects or below zero is an error and changes nothing, and the reported size is the number of pages in use. Every page size either gives a buffer that works so or is rejected as an invalid argument when the buffer is created.",
  ["histories", "configurations"], "all operation sequences up to a depth for page sizes 1, 2, 4 and larger",
  "The tests use one page that is never filled.",
  [B + "object_buffer.go"], ["page number and offset computed from the index"])
p("C20", "The byte buffer returns exactly the requested bytes",
  "Reading one byte or a slice of the byte buffer returns exactly the bytes at the requested offset and length for every request that lies strictly inside the buffer, and an invalid-argument error for negative or oversized requests of any magnitude, without panicking. The buffer's content and size never change through reading, clearing or resizing.",
  ["inputs"], "all offset and length pairs around 0, the size and the integer limits for all small buffer sizes",
  "The tests read only slices that start at 0.",
  [B + "byte_buffer.go"], ["bounds checks"])
p("C21", "Character classes are exact for every code point",
  "For every code point the whitespace, name-start, name, content and valid-character predicates answer as the XML productions say, apart from control characters, on which XML 1.0 and 1.1 differ. Numbers above U+10FFFF belong to no class.",
  ["inputs"], "all code points from 0 to 0x10FFFF and values beyond",
  "One test checks about 80 characters of one class.",
  ["vtdxml/common/xml_char.go"], ["range tables"])
p("C22", "Readers deliver the window character by character",
  "For every document, window and sequence of calls, a reader delivers the characters of its window in order (decoded for UTF-8, bytes below 128 for ASCII), reports its offset exactly, signals the end of input at the window's end and never looks or moves beyond it; skipping succeeds and advances exactly if the next characters are the given ones, and otherwise leaves the offset where it was. Reading a long character at an offset reports the character there with its number of bytes, a carriage return followed by a line feed as one line feed of two bytes, and an error outside the document.",
  ["histories", "inputs"], "all operation sequences up to a depth on all small documents over a byte alphabet and all their windows",
  "The tests read one ASCII document from start to end.",
  [R + "utf8_reader.go", R + "ascii_reader.go"], ["offset and end offset"])
p("C23", "Errors keep their kind and their cause",
  "Every error constructor returns an error that is recognised as exactly its own exported kind, carries its message, and unwraps to the cause it was given, through any nesting. The library reports invalid arguments, malformed references, and an unknown navigation direction as errors of their respective kinds.",
  ["inputs"], "all constructors times all kinds, all nestings up to depth 3, all invalid constructor arguments and malformed references of the explored spaces",
  "The tests compare messages of a few errors.",
  ["vtdxml/erroring/erroring.go", P + "common.go", P + "vtd_parser.go", N + "to_element.go"], ["one struct type per kind embedding a base error"])
p("C24", "Parse errors name the line of the offending character",
  "When a document is rejected because of a character, outside a reference and not at the very start, that XML does not allow at its place, the error is a parse error and carries the number of the line that contains the character, counted from 1 in line feeds from the start of the document or window. This holds for every position of the character in the document.",
  ["inputs"], "every position of multi-line feature-covering documents, every printable character and three characters that are never allowed, whole documents and windows",
  "No test looks at the line number.",
  [P + "common.go"], ["line counting over the document bytes up to the parser offset"])
p("C25", "The modifier accepts exactly the encodings it supports",
  "Creating a modifier for a navigation succeeds exactly if the document's encoding is ASCII or UTF-8 and otherwise fails with a modify error; a missing navigation is an invalid-argument error for the modifier and the pilot.",
  ["inputs", "configurations"], "all encoding values, navigation sizes around each hash size class, and option orders",
  "There are no tests of these packages.",
  ["vtdxml/modifier/xml_modifier.go", "vtdxml/pilot/auto_pilot.go", "vtdxml/common/int_hash.go"], ["encoding switch"])
p("C26", "Parsing then navigating reproduces the document",
  "Navigating the result of a parse with location cache depth 5 visits the elements of the document in document order with their names, and the strings of its tokens are the names, attribute values and texts of the document. This holds for every accepted document, with and without namespace awareness.",
  ["inputs", "histories"], "all documents of a fragment space up to a length and all element trees up to a size, walked completely in both directions",
  "No test connects the parser to the navigation.",
  [P + "common.go", N + "to_element.go", N + "to_string.go", N + "common.go"], ["token stream and location cache passed from parser to navigation"], ["token buffer", "location cache buffers"], HOOK)
p("C27", "Parser settings never influence the result they are not about",
  "The order in which options are given, the location cache depth and the buffer reuse setting never influence whether a document is accepted, the error, or the tokens; of several values given for one setting the last one counts. A document that is accepted with namespace awareness is accepted without it, with the same tokens, and a document that contains neither a colon nor a namespace declaration has the same result in both modes.",
  ["configurations", "inputs"], "all option orders and repetitions over small option sets, all setting combinations on all documents of the explored spaces of the other properties",
  "The tests use one or two settings, each with its own document.",
  [P + "init.go", P + "vtd_parser.go", P + "common.go"], ["functional options writing parser fields", "namespace mode switch"], ["error and token buffer after Parse"], HOOK)
p("C28", "Tokens lie inside the window, in document order, each delimited by its markup",
  "For every accepted input, whatever constructs it contains, every token lies completely inside the parsed window, the tokens follow each other in document order without overlapping, each is preceded and followed by the markup of its kind, an attribute name or processing instruction name is followed by its value, depths start at the root and grow by at most one level from an element to the next, and the recorded document depth and root index are those of the deepest element and the first start tag.",
  ["inputs"], "every accepted document of the explored spaces of the other properties, alone and as a window inside other bytes",
  "No test looks at the tokens.",
  [P + "common.go", P + "vtd_parser.go"], ["token records written by the state functions"], ["token buffer after Parse"], HOOK)
p("C29", "Cursors over one parse are independent and reading changes nothing",
  "Any number of cursors over the same or different parses, created and used in any interleaving, each move and read exactly as if it were alone; reading (token accessors, string extraction, current index) never moves a cursor and never changes tokens, location caches or the document, and concurrent use of separate cursors is free of data races.",
  ["schedules", "histories"], "the product of the state graphs of two cursors and all step sequences of several cursors up to a length; reads by all accessors in every state",
  "The tests use one cursor at a time.",
  [N + "vtd_nav.go", N + "to_element.go", N + "to_string.go", N + "common.go"], ["cursor context per navigation", "shared token and location cache buffers"], ["current index, buffers"], HOOK)
p("C30", "Line ends come out as line feeds in every string",
  "In the strings and raw strings of all tokens and ranges no carriage return of the document remains: a carriage return with the line feed behind it, and a carriage return alone, come out as one line feed as XML demands, while a carriage return written as a character reference stays one in the resolved string and everything else is as without carriage returns. This holds at every place of a string, also at the end of the document, at the end of a range and around the ends of the parts of a long text.",
  ["inputs"], "all strings over carriage return, line feed, characters and references up to a length in every kind of token, all ranges of them, line ends at every distance and around every size limit, in parsed documents and alone",
  "The tests compare one file with recorded output (in which a carriage return and line feed give two line feeds, a known finding).",
  [N + "to_string.go", N + "get_char_resolved.go"], ["one character may take two bytes", "peek at the byte behind a carriage return"], ["strings and raw strings"])
p("C31", "A parser parses its document once",
  "Calling Parse again on the same parser, after a success or after an error of any kind and any number of times, returns an error; it never panics or hangs and leaves the tokens and the root index of the first parse as they were.",
  ["inputs", "histories"], "every document of the explored spaces, accepted or rejected at any byte, followed by three more calls of Parse, in all settings",
  "No test calls Parse twice.",
  [P + "parse.go", P + "vtd_parser.go"], ["parser state left behind by the first run"], ["error of the further calls, token buffer"], HOOK)
with open("/verif/properties.jsonl", "w") as f:
    for x in props:
        f.write(json.dumps(x) + "\n")
print(len(props))
