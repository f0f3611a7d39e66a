#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the long lines stay editable).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
S="email-parser/src/"
HK="cfg email_parser_verif re-exports the internal parsers (verif_hooks); the public API alone suffices for the end-to-end part"
p("C01","Parsing never panics, overflows, or loops forever on any input",
  "For every byte string and in both feature sets, every parser and decoder (whole messages, single headers, transfer decodings, MIME bodies, encoded words, parameters) returns a value or an error: it never panics, never overflows an integer, never indexes out of bounds and always terminates. This includes hostile inputs such as empty input, truncated escapes, thousands of nested comments and 256 or more parameter continuations.",
  ["inputs","configurations"],"every byte string given to every public or internal parser and decoder, default and all features, debug assertions on",
  "the tests run a few dozen well-formed strings and some malformed ones; absence of panics and of infinite loops is a statement about all inputs",
  [S+"parsing",S+"email.rs",S+"string.rs",S+"mime.rs"],
  [("every loop consumes input or breaks","parsing/combinators.rs many/many1/ignore_many/collect_many"),("bounds tested before indexing","parsing/*"),("comment nesting counted instead of recursion","parsing/whitespaces.rs comment"),("checked_add on the continuation index","parsing/mime/percent_encoding.rs")],
  observe=["Email::parse","RawEntity::parse"],hook=HK)
p("C02","Unchecked memory accesses and unchecked UTF-8 conversions are always justified",
  "Every slice or array access the library performs without a bounds check is in bounds, and every string it builds from bytes without checking (or by joining two adjacent borrowed strings) is valid UTF-8, for every input. In particular all text returned by the parsers is valid UTF-8 even when the input contains arbitrary non-ASCII bytes.",
  ["inputs","configurations"],"every byte string, default and all features",
  "undefined behaviour from an out-of-range unchecked access or invalid str rarely shows in a sampled test",
  [S+"parsing/combinators.rs",S+"parsing/message.rs",S+"parsing/quoted_string.rs",S+"string.rs",S+"parsing/mime/base64.rs",S+"parsing/mime/multipart.rs",S+"parsing/mime/percent_encoding.rs"],
  [("get_unchecked guarded by length tests","parsing/combinators.rs tag, tag_no_case, take_while"),("character classes are ASCII only","parsing/character_sets.rs"),("adjacency test before from_raw_parts","string.rs add_string, add_str")],
  observe=["every returned &str / Cow<str>"],hook=HK)
p("C03","The body is returned exactly: byte for byte after the first blank line",
  "Without MIME support, the body of a parsed message is exactly the bytes following the CRLF that ends the header section, and it is absent exactly when the message ends with the headers. A body is accepted iff it is a sequence of CRLF-separated lines of at most 998 text octets (1-127 except CR and LF); splitting it into lines loses and adds nothing. With MIME support the body bytes are handed over undecoded and unchecked to the transfer decoding.",
  ["inputs","configurations"],"every byte string following the header section",
  "a test fixes one body; fidelity, the 998 octet limit and the rejection rule range over all bodies",
  [S+"parsing/message.rs",S+"email.rs"],[("line / check_line scan at most 998 octets","parsing/message.rs"),("body slices after the CRLF","parsing/message.rs body, parse_message")],
  observe=["Email::body","parse_message"],hook=HK)
p("C04","Mandatory, unique and repeated headers; sender inference",
  "Parsing succeeds only if From and Date are present; a second occurrence of From, Sender, Subject, Date, To, Cc, Bcc, Message-ID, In-Reply-To, References, Reply-To (or of a MIME entity header of the message) is an error. When Sender is absent it equals the single From mailbox, and it is an error if there are several. Comments, Keywords, unknown headers and trace blocks are all kept, in order of appearance, and every parsed header value ends in the attribute of that header.",
  ["inputs","histories","configurations"],"every sequence of header fields of every length and order",
  "tests cover single fields and one or two whole mails; the rule quantifies over all sequences of fields",
  [S+"email.rs",S+"parsing/fields.rs"],[("is_none guards and DuplicateHeader errors","email.rs Email::parse"),("ok_or MissingHeader","email.rs"),("from.len() == 1 inference","email.rs")],
  observe=["Email::parse"],hook=None)
p("C05","Header names are matched in any letter case and fields are dispatched by name",
  "Every known header name is recognised whatever the case of its letters, with identical results for every casing, and only that name (followed by a colon) selects that header's value syntax. A field whose name is unknown, or whose value does not follow the syntax of its name, is kept as an unknown field with its name as written. The list of parsed fields is in the order of the message.",
  ["inputs","configurations"],"every header name casing and every header block, default and all features",
  "2^n casings per header name and arbitrary surrounding fields cannot be enumerated by examples",
  [S+"parsing/fields.rs",S+"parsing/combinators.rs",S+"parsing/mime/mime_fields.rs"],[("tag_no_case with two opposite-case spellings","parsing/combinators.rs tag_no_case"),("ordered alternatives ending with unknown","parsing/fields.rs fields")],
  observe=["Email::parse","parse_message"],hook=HK)
p("C06","Whitespace, comments, quoted strings, atoms and phrases follow RFC 5322",
  "Folding whitespace, (nested) comments, quoted pairs, quoted strings, atoms, dot-atoms, words and phrases are consumed exactly as the (non-obsolete) RFC 5322 grammar reads, taking the longest repetition at each step. Comments and surrounding whitespace never appear in values; a quoted string's value is its content with CRLFs of folds and escaping backslashes removed and inner whitespace kept; an atom's value is exactly its characters.",
  ["inputs","configurations"],"every byte string given to the lexical parsers, default and all features",
  "arbitrary nesting of folds, comments and quotes; tests fix a dozen combinations",
  [S+"parsing/whitespaces.rs",S+"parsing/quoted_string.rs",S+"parsing/common.rs",S+"parsing/character_sets.rs",S+"parsing/combinators.rs"],
  [("optional / many / match_parsers combinators","parsing/combinators.rs"),("character classes","parsing/character_sets.rs")],
  observe=["names in mailboxes","keywords","local parts"],hook=HK)
p("C07","Mailboxes, groups and address lists are parsed completely and in order",
  "An address list is accepted iff it is a comma separated list of mailboxes and groups of RFC 5322, and it yields exactly those addresses in order: for each mailbox its display-name words (if any), local part and domain, for each group its name and its members (possibly none). A mailbox list accepts mailboxes only.",
  ["inputs","configurations"],"every byte string given to the mailbox, address, list and group parsers",
  "list length, nesting of comments and quoting and every combination of forms are unbounded",
  [S+"parsing/address.rs",S+"address.rs",S+"parsing/fields.rs"],[("ordered choice name_addr / addr_spec / group","parsing/address.rs"),("prefixed(…, \",\") loops","parsing/address.rs mailbox_list, address_list")],
  observe=["Email::{from,sender,to,cc,bcc,reply_to}"],hook=HK)
p("C08","Dates are accepted only in range and equal what is written",
  "A date-time is accepted only with day 1-31, a month name, a year of at least four digits not before 1990, hour 0-23, minute 0-59, second 0-60 (or omitted, meaning 0) and zone minutes 0-59; day and month names match in any case. The returned day name, day, month, year, time, zone sign and zone offset are exactly the numbers and names written.",
  ["inputs"],"every byte string given to the date-time parser",
  "the range checks and numeric conversions must hold for all digit strings including overlong ones",
  [S+"parsing/time.rs",S+"time.rs",S+"parsing/character_sets.rs"],[("range tests after each number","parsing/time.rs"),("digit tables","parsing/character_sets.rs digit")],
  observe=["Email::date","Disposition dates","trace dates"],hook=HK)
p("C09","Message identifiers keep both parts and lists keep every identifier in order",
  "A message identifier is accepted iff it is '<' dot-atom-text '@' (dot-atom-text or bracketed literal) '>' surrounded by optional comments and whitespace, and yields exactly its left part and right part (without the brackets of a literal). In-Reply-To and References yield every identifier in order and need at least one.",
  ["inputs"],"every byte string given to the identifier parsers",
  "identifier text and list length are unbounded",
  [S+"parsing/address.rs",S+"parsing/fields.rs",S+"parsing/common.rs"],[("message_id","parsing/address.rs"),("many1 of message_id","parsing/fields.rs in_reply_to, references")],
  observe=["Email::{message_id,in_reply_to,references}","RawEntity::id"],hook=HK)
p("C10","Base64 decoding is exact and inverts encoding; encoded lines stay within 76",
  "Decoding base64 yields exactly the bytes its alphabet characters encode, ignoring every other character, stopping cleanly at padding and failing on incomplete quantums. Encoding any bytes yields standard padded base64 in CRLF separated lines of at most 76 characters, and decoding an encoding gives back the original bytes.",
  ["inputs"],"every byte vector of every length",
  "in-place decoding with shifting offsets must be right for every length, every interleaving of ignored characters and every padding",
  [S+"parsing/mime/base64.rs"],[("in-place decoding with offset","decode_base64"),("3-to-4 byte groups and line counter","encode_base64")],
  observe=["decode_base64","encode_base64"],hook=HK)
p("C11","Quoted-printable decoding is exact and inverts encoding",
  "Decoding quoted-printable replaces every =XX escape by its byte, drops soft line breaks, keeps every other permitted character and line break, and replaces invalid escapes and forbidden bytes by U+FFFD. The header variant also turns '_' into a space. Encoding any bytes and decoding the result gives the original bytes, and encoded output lines have at most 76 characters.",
  ["inputs"],"every byte vector",
  "insertions and removals in place must be right at every position; tests use two sentences",
  [S+"parsing/mime/quoted_printables.rs"],[("index walking over the mutated vector","decode_qp, decode_header_qp, encode_qp")],
  observe=["decode_qp","encode_qp","encoded words"],hook=HK)
p("C12","Encoded words are decoded per RFC 2047 in subjects, comments and phrases",
  "A well-formed =?charset[*lang]?B|Q?text?= word is replaced by the text decoded with its transfer encoding (in any letter case) and charset; anything else, including unknown charsets, undecodable text and unknown encodings, is left as plain text. In unstructured text, whitespace between two adjacent encoded words is dropped and any other whitespace is kept.",
  ["inputs"],"every byte string in unstructured headers and phrases, MIME features on",
  "sequences of encoded and plain words, and the failure paths, are unbounded",
  [S+"parsing/mime/encoded_headers.rs",S+"parsing/common.rs"],[("previous_was_encoded flag","parsing/common.rs mime_unstructured"),("encoded_word","parsing/mime/encoded_headers.rs")],
  observe=["Email::subject","Email::comments","mailbox names"],hook=HK)
p("C13","RFC 2231 parameters: continuations are joined in order and percent-decoded once",
  "A parameter split in sections name*0, name*1, ... is returned under its lower-cased name as the concatenation of the sections in index order (from 0, up to the first missing index) whatever their order in the header; a section marked with a trailing '*' is percent-decoded exactly once with the charset declared by the first section. Plain parameters are returned unchanged, and a section that has no section 0 yields nothing.",
  ["inputs"],"every list of parameters: any number, order, indexes, encodings and charsets",
  "permutations of sections and arbitrary percent sequences are unbounded",
  [S+"parsing/mime/percent_encoding.rs",S+"parsing/mime/mime_fields.rs"],[("map of sections by index","percent_encoding.rs collect_parameters"),("single left-to-right decoding pass","percent_encoding.rs decode_parameter")],
  observe=["RawEntity::parameters","Disposition::unstructured"],hook=HK)
p("C14","MIME types, dispositions, encodings and parameters are parsed as written",
  "Media types, subtypes, disposition types, transfer encodings and parameter names are case-insensitive and returned in lower case or as their known variant, unknown ones keep their name; parameter values are returned as written (unquoted). A missing Content-Type means text/plain with charset us-ascii and a missing transfer encoding means 7bit; filename and the three dates of a disposition are returned in their own attributes; a MIME version is accepted iff both numbers fit in 0-255.",
  ["inputs"],"every byte string given to the MIME header parsers and every entity header block",
  "tests fix about ten header lines; all parameter lists, casings, comments and orders must work",
  [S+"parsing/mime/mime_fields.rs",S+"parsing/mime/entity.rs",S+"email.rs",S+"mime.rs"],[("match_parsers over known names then token","mime_fields.rs"),("unwrap_or defaults","entity.rs header_part, email.rs")],
  observe=["RawEntity","Email::mime_entity"],hook=HK)
p("C15","Multipart bodies are split exactly at their boundaries",
  "A multipart body yields one entity per part, in order: the parts are exactly the byte ranges between consecutive boundary lines (CRLF or start of body, two dashes, the boundary, CRLF) up to the closing boundary line, without the preamble and the epilogue. The CRLF before a boundary belongs to the boundary; text that merely starts like the boundary does not split; a missing closing boundary or boundary parameter is an error.",
  ["inputs"],"every body and every boundary string",
  "boundary look-alikes at every offset, empty parts, parts of every content",
  [S+"parsing/mime/multipart.rs",S+"parsing/mime/entity.rs"],[("before_boundary_idx scan","multipart.rs"),("parts.remove(0)","multipart.rs parse_multipart")],
  observe=["RawEntity::parse"],hook=HK)
p("C16","Entity values are transfer-decoded according to their declared encoding",
  "The value of a message or part is its body bytes decoded by the declared Content-Transfer-Encoding: unchanged for 7bit, 8bit and binary (and when undeclared), base64-decoded for base64, quoted-printable-decoded for quoted-printable, and an error for any other. Part headers that are not MIME headers are all kept, in order, and the body starts right after the blank line.",
  ["inputs"],"every entity: any headers in any order, any body, borrowed or owned",
  "the dispatch, the header/body cut and the order of headers range over all inputs",
  [S+"parsing/mime/entity.rs",S+"email.rs"],[("decode_value","entity.rs"),("header_part loop, raw_entity cut by remaining length","entity.rs")],
  observe=["Email::mime_entity","RawEntity::value"],hook=HK)
p("C17","Borrowed and owned string pieces join into exactly their concatenation",
  "Joining two string pieces, whether borrowed or owned, adjacent in memory or not, empty or not, always gives the concatenation of their contents in order, and it changes nothing else. Hence the zero-copy fast path is unobservable in the parsed values.",
  ["inputs"],"all pairs of strings, all ownership combinations, all memory placements",
  "whether two borrowed pieces are adjacent depends on memory layout, which tests do not vary",
  [S+"string.rs",S+"parsing/combinators.rs"],[("adjacency test then from_raw_parts","string.rs add_string, add_str")],
  observe=["every parsed text value"],hook=HK)
p("C18","Unstructured header text is returned unfolded and otherwise unchanged",
  "Without MIME decoding, the value of an unstructured header (Subject, Comments, unknown headers) is the text after the colon with the CRLF of every fold removed, other whitespace between words kept as written, and trailing whitespace dropped. The text is accepted up to the CRLF ending the header and consists of visible ASCII characters and whitespace only.",
  ["inputs","configurations"],"every byte string following the header name",
  "all foldings and spacings",
  [S+"parsing/common.rs",S+"parsing/fields.rs"],[("collect_many of fws and vchar runs","parsing/common.rs unstructured")],
  observe=["Email::subject","Email::comments","Email::unknown_fields"],hook=HK)
p("C19","Trace blocks keep every Received and Resent header of the block, in order",
  "A message may start with trace blocks: an optional Return-Path followed by at least one Received header, then Resent-* headers. Each block is returned with its return path (possibly empty), all Received headers in order with their tokens and date, and all Resent headers in order with the same values as the corresponding plain headers.",
  ["inputs","histories"],"every sequence of trace and resent headers",
  "number, order and mixture of blocks are unbounded; tests cover one header each",
  [S+"parsing/fields.rs"],[("while let Ok(trace) loop and inner resent loop","fields.rs fields"),("received token alternatives","fields.rs received")],
  observe=["Email::trace"],hook=HK)
p("C20","Text entities are decoded with their charset, others are dispatched by type",
  "Parsing a text entity with a supported charset (in any letter case) returns its value decoded with that charset and its subtype; invalid UTF-8 or non-ASCII beyond UTF-8 rules is an error, and an unsupported or missing charset yields an unknown entity. A multipart entity yields its parts and subtype, and every other type yields an unknown entity.",
  ["inputs"],"every entity: type, parameters and value",
  "19 charsets times all byte values; tests decode one or two",
  [S+"parsing/mime/entity.rs",S+"mime.rs"],[("match on the lower-cased charset","entity.rs entity")],
  observe=["RawEntity::parse"],hook=HK)
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
