#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

AL = "crates/m-bus-application-layer/src/"
VI = AL + "value_information.rs"; DI = AL + "data_information.rs"; VU = AL + "variable_user_data.rs"; LB = AL + "lib.rs"
WD = "crates/wired-mbus-link-layer/src/lib.rs"; WL = "crates/wireless-mbus-link-layer/src/lib.rs"
CORE = "crates/m-bus-core/src/lib.rs"; DEC = "crates/m-bus-core/src/decryption.rs"
OUT = "src/output.rs"; ANN = "src/annotate.rs"; MB = "src/mbus_data.rs"; XML = "src/rscada_xml.rs"

p("C01", "No input makes a decode, render or annotate call panic",
  "For every byte string up to 1024 bytes, every longer one up to 200000 bytes made of repeated pieces, every text input, every key and every output format, each public decoding, rendering, annotating, low-level parsing and record-iterating call returns a value or an error, and record iteration yields no more items than there are bytes. "
  "None of them panics, indexes out of range, overflows arithmetic or the stack, ends the process or runs for ever, in the default build and in the build with plain text before extensions.",
  ["inputs", "configurations"], "all byte strings and texts (random, mutated real frames, structured frames with hostile fields, layers and records repeated thousands of times), all formats, all keys, both plain text configurations",
  "The input space is all byte strings; tests replay a fixed corpus of captured frames, while the panics live in rare combinations of truncated headers, reserved codes and over-long chains.",
  [OUT, ANN, MB, XML, LB, VU, VI, DI, WD, WL, CORE, DEC],
  [("decode entry points", OUT), ("frame annotation", ANN), ("legacy serialisation", MB), ("record iteration", VU)],
  ["return of every public call under a panic-catching caller in a supervised process"])

p("C02", "Wired frames are accepted exactly when well formed, and read back exactly",
  "A byte string is accepted as a wired M-Bus frame exactly when it is the single byte E5h, a five-byte short frame 10h C A checksum 16h, or a 68h L L 68h C A ... checksum 16h frame whose two L bytes equal each other and the number of bytes between the second 68h and the checksum, whose checksum is the byte sum of that part modulo 256, and whose C field is a known function. "
  "For an accepted frame the reported kind, function, address and user data are those encoded in the bytes; anything else, including any such frame with one byte removed, added or corrupted so that one of these rules fails, is rejected.",
  ["inputs"], "all frame kinds, all C and A values, all user data lengths 0..252, and all single and multiple byte corruptions, truncations and extensions",
  "Acceptance is a predicate over all byte strings; tests sample some valid frames and a handful of error files.",
  [WD, CORE, OUT], [("wired frame parse", WD), ("function code table", CORE), ("canonical frame section", OUT)],
  ["low-level wired frame parse result", "canonical decoded output: frame section", "error code of rejected input"])

p("C03", "Wireless frames give the same content with or without link CRCs",
  "A wireless frame decodes to the same meter identity, control field, transport data and records whether it is given without CRCs, with one valid trailing frame CRC, or in Format A with a valid CRC after the first 10 bytes and after each following block of up to 16 bytes. "
  "Its link identity (id, manufacturer, version, device type) and control field are those encoded in the link header, and a frame is rejected when it has no valid Format A header CRC and its length byte disagrees with the number of its bytes.",
  ["inputs"], "all link headers, all application payloads of 1..240 bytes, all three CRC layouts, all wrong length bytes",
  "The relation is between three encodings of every frame; tests hold single captured frames, none with all block counts and payload sizes.",
  [WL, OUT], [("Format A stripping", WL), ("wireless header parse", WL), ("normalised frame reporting", OUT)],
  ["canonical decoded output: frame, meter, transport, records, raw sections", "low-level wireless frame fields"])

p("C04", "Transport header fields are reported exactly and with their source",
  "For every supported application header (long, short, none, fixed structure, application reset, extended link layer I, II and III) the decoded output reports the header kind, every identity, access number, status, configuration word and extended-link-layer field with exactly the value encoded and labelled with the layer it came from. "
  "When both the wireless link and a long header carry an identity, the header's identity is primary and the link's is listed as alternate; a header that is cut short gives an application error instead of invented fields.",
  ["inputs"], "all header kinds on wired and wireless frames, all field values, all truncation points",
  "Fields sit at shifting offsets per header kind; tests fix a few captured headers and compare mostly whole-frame snapshots.",
  [LB, AL + "extended_link_layer.rs", OUT], [("user data block parse", LB), ("transport, meter and status sections", OUT)],
  ["canonical decoded output: meter and transport sections", "low-level user data block"])

p("C05", "Record segmentation follows the announced lengths exactly",
  "Splitting a data block into records consumes the block exactly: each record is its information bytes plus as many data bytes as its coding announces (0, 1, 2, 3, 4, 6 or 8 bytes, 1 to 6 BCD bytes, or the length announced by a variable-length byte), fillers 2Fh are skipped, and manufacturer data 0Fh/1Fh takes all that remains. "
  "The header and data bytes reported for consecutive records, with fillers put back, concatenate to the original block, for every record and every truncation point; a truncated record yields no record.",
  ["inputs"], "all sequences of records over all data field codes, up to 10 storage extensions and up to 10 value extensions, all variable lengths, fillers anywhere, all truncations",
  "Any length slip shifts all later records; tests contain few codings per frame and few multi-extension or variable-length records.",
  [VU, DI, VI, OUT], [("record iterator", VU), ("data length table", DI), ("variable length decode", DI)],
  ["header and data bytes of each record in the canonical output", "low-level record sizes", "stand-alone record decode"])

p("C06", "Function, storage number, tariff and subunit decode from DIF and DIFEs",
  "For every record the reported function (instantaneous, maximum, minimum, error state), storage number, tariff and subunit are exactly those assembled from the DIF bits and all extension bytes in order, least significant part first. "
  "They do not depend on the value information or the data of the record.",
  ["inputs"], "all DIF bytes with 0..10 extension bytes of all values",
  "Bits are assembled across up to ten bytes; tests cover one or two extension bytes with mostly zero high bits.",
  [DI, OUT], [("storage, tariff and subunit assembly", DI)],
  ["storage_number, tariff, subunit and function of canonical records", "low-level data information"])

p("C07", "Numeric values are exact decimals of the encoded number, scale and offset",
  "For every record with an integer, BCD or variable-length numeric coding the reported decimal equals the encoded number times ten to the power given by the value information, plus any additive correction, exactly and without leading or lost digits, including negative numbers and full 64-bit and 18-digit range. "
  "Real codings report the IEEE single value, with NaN and infinities named; a BCD value with a non-decimal digit is never reported as a number.",
  ["inputs"], "all integer widths 8..64 bit, all BCD digit counts 2..12 plus variable length, all signs, all decimal scales of the code tables and correction extensions, all float bit patterns",
  "Exactness is about every bit pattern times every scale; tests compare a few positive values, often after rounding.",
  [OUT, DI, VI], [("integer, BCD and real decode", DI), ("decimal scaling", OUT), ("scale of value information", VI)],
  ["value of canonical records in JSON, CSV and stand-alone record decode"])

p("C08", "Every standard value information code maps to its quantity, unit and scale",
  "For every primary value information code, every code of the first and second extension tables and every combinable extension defined in EN 13757-3 that the library supports, the record reports the quantity, unit and decimal scale given by the standard's table. "
  "Extensions add their label, unit or scale without losing those of the primary code, and unsupported or reserved codes produce an error or an unlabelled record, never another code's quantity.",
  ["inputs"], "all 1- and 2-byte codes of the tables with and without combinable extensions (up to three)",
  "There are about 400 table entries and 128 extensions that combine; tests touch a few dozen.",
  [VI, OUT], [("value information tables", VI), ("unit and label naming", OUT)],
  ["quantities, unit and value of canonical records"])

p("C09", "Dates and times report exactly the encoded calendar fields",
  "For every record coded as date (type G), date and time (type F), time (type J) or date and time with seconds (type I), the day, month, year, hour, minute and second reported are those in the encoded bits. "
  "A component coded as 'every', or a month outside 1 to 12, is never reported as a concrete value and prevents a complete date or time; a fully specified value is written in ISO order.",
  ["inputs"], "all bit patterns of 2-, 3-, 4- and 6-byte date codings that the standard defines, including every-wildcards and invalid months",
  "Fields straddle bytes; tests check a few dates and none with days or months at the edges of their bit fields.",
  [DI, OUT], [("date and time bit fields", DI), ("date formatting", OUT)],
  ["value kind and value of canonical records", "data coding name"])

p("C10", "Text values and plain text units come back as encoded",
  "A text record of 0 to 191 bytes is reported as the encoded characters in reading order (transmitted last character first), as UTF-8 where the bytes are valid UTF-8 and as Latin-1 otherwise, with no character lost, added or reordered. "
  "A plain text unit of 1 to 9 characters is kept intact in the record's value information, and changes neither the value, function and storage of its record nor any following record.",
  ["inputs", "configurations"], "all byte contents and lengths of text records and plain text units, both positions of the plain text",
  "Content and length are unbounded; tests use a few ASCII strings.",
  [DI, VI, OUT], [("text decode", DI), ("plain text unit", VI)],
  ["value of canonical records", "low-level text value and plain text of the value information block"])

p("C11", "Decrypting with the right key gives back exactly the cleartext records",
  "For every frame whose record block is encrypted with AES-128-CBC in the supported security modes, decoding with the correct key reports exactly the decrypted bytes, and the records equal those of the same cleartext sent unencrypted, for every key, identity, access number, number of blocks, header kind and CRC layout. "
  "The frame is marked decrypted but unverified, and a mode the library does not support with a key gives an unsupported-mode error.",
  ["inputs"], "all keys, identities, access numbers, 1..14 blocks, long and short headers, wired and wireless, extended link layer I",
  "Ciphertext depends on all header fields through the initial vector; tests replay a few captured telegrams with known keys.",
  [DEC, LB, OUT, MB], [("AES-CBC and initial vector", DEC), ("decryption with header or link identity", LB), ("security section", OUT)],
  ["canonical decoded output with key: security and records sections", "low-level decryption calls", "annotated output with key"])

p("C12", "Encrypted payload without a key is never interpreted as records",
  "When a frame declares its payload encrypted and no key is given, no output (other than the libmbus-compatible XML of a wired frame, which ignores the declaration) and no annotation reports a record, value or record field taken from the encrypted bytes; the decode is marked partial with a missing-key diagnostic and the raw payload is kept. "
  "Supplying a key to a cleartext frame changes nothing in its records.",
  ["inputs"], "all header kinds that declare encryption, also inside another extended link layer, all security modes, payloads that look like valid records, all formats, with and without key",
  "The leak only shows when the encrypted bytes happen to parse; captured ciphertext rarely does, so tests cannot tell parsed from skipped.",
  [OUT, ANN, MB, XML], [("security gate", OUT), ("encrypted payload annotation", ANN)],
  ["records, security and diagnostics sections", "all rendered formats", "annotation segments"])

p("C13", "JSON, YAML, CSV and the decoded value all carry the same data",
  "For every decodable frame the JSON and YAML renderings parse back to exactly the decoded output structure, and the CSV rendering has one header and one row whose cells equal the corresponding fields, with as many record column groups as records. "
  "Rendering from hexadecimal text equals rendering from the bytes, and decoding failures are reported with the same error code by every one of these entry points.",
  ["inputs"], "all decodable frames, including texts and units with quotes, separators, newlines and control characters",
  "Quoting and field selection fail on hostile contents; tests compare tame frames.",
  [OUT, "src/lib.rs"], [("renderers", OUT), ("CSV row building", OUT)],
  ["JSON, YAML and CSV text", "decoded output structure"])

p("C14", "Tables contain every record and diagnostic and never exceed the width",
  "For every decodable frame and every requested width of at least 32 columns, no line of the table is wider than requested, the columns of each box line up with its borders, and the table contains every record's number, function, reading and value text and every diagnostic, once line wrapping is undone. "
  "A narrower width is refused with an option error, and an omitted width behaves as the documented default.",
  ["inputs", "configurations"], "all decodable frames and all widths 32..400, with wide, combining and very long texts",
  "Width arithmetic interacts with content; tests render a few frames at a few widths.",
  [OUT], [("table layouts and wrapping", OUT)],
  ["table text measured with an independent display-width routine"])

p("C15", "Mermaid diagrams are well formed and contain every record",
  "For every decodable frame the Mermaid rendering is a flowchart in which every line is a known statement, every label is quoted with no raw quote, angle bracket or line break in it, every edge connects defined nodes, and every node id is defined once. "
  "Frame facts and one node per record, with the record's value, are present.",
  ["inputs"], "all decodable frames, including texts and units with quotes, brackets, newlines and markup",
  "Escaping breaks only on hostile contents; tests use tame frames.",
  [MB, OUT], [("mermaid rendering and escaping", MB)],
  ["Mermaid text parsed by an independent line grammar"])

p("C16", "XML is well formed and agrees with the decoded values",
  "For every supported frame the XML rendering is a well-formed document with one data record element per decoded record in order, whose storage number, tariff, device, function, unit, quantity, value, identity, medium and product fields agree with the bytes, whatever characters texts and units contain. "
  "Frame kinds the format does not cover are refused with the XML-unsupported error and never produce a document.",
  ["inputs"], "all wired long-header and fixed frames and wireless frames, with hostile text contents",
  "Well-formedness and numeric agreement are over all contents; tests compare a fixed set of reference documents.",
  [XML, OUT], [("XML rendering", XML)],
  ["XML text parsed by an independent parser"])

p("C17", "Byte annotations tile the frame and name each byte's true role",
  "For every accepted frame the annotation segments are in order, do not overlap and cover every byte of the input exactly once. "
  "Each segment's role agrees with the position of the link, transport and record fields of that byte, record groups number the records exactly as the decoded records are numbered, and the text rendering shows every segment.",
  ["inputs", "configurations"], "all accepted wired and wireless frames in every CRC layout, all header kinds, all record sequences, both plain text configurations",
  "Offsets are recomputed separately from decoding; tests annotate a handful of frames and check selected segments.",
  [ANN, MB], [("frame annotation", ANN), ("Format A offset mapping", ANN)],
  ["annotation segments", "annotated JSON and text outputs"])

p("C18", "Hexadecimal input is accepted and converted exactly per its grammar",
  "Hexadecimal text is accepted exactly when, after trimming, it is an even number of hex digits, or a sequence of two-digit bytes each optionally prefixed 0x and separated by white space, colons or hyphens; the bytes are those written. "
  "Everything else gives an invalid-hex or empty-input error, and every entry point taking hex text uses the same grammar.",
  ["inputs"], "all texts: generated from the grammar, mutated grammar texts, and arbitrary Unicode strings",
  "The grammar is a predicate over all strings; tests try a few spellings.",
  [OUT], [("hex grammar", OUT)],
  ["hex conversion result", "error code of every text entry point"])

p("C19", "Damaged data yields the readable records and a located diagnostic",
  "When the record block of an otherwise valid frame contains a record that cannot be decoded, the output is marked partial, keeps every record before it unchanged and none after it, and carries a warning whose byte offset is where the bad record starts; when all records decode, the output is complete and has no such warning. "
  "Unsupported or truncated application headers give a partial output with an application warning and the raw payload kept, never an error for a valid link frame.",
  ["inputs"], "all record sequences with one damaged record at any position and kind of damage, all control information bytes",
  "The position and kind of damage are free; tests contain a few damaged captures without checking offsets.",
  [OUT, VU], [("partial decode and diagnostics", OUT), ("record iterator position", VU)],
  ["decode state, diagnostics, records and raw sections"])

p("C20", "The command line tool prints exactly what the library renders",
  "For every input text, format name, key text, width and enrichment switch, the command line tool exits with success and prints exactly the library's rendering, or exits with failure, prints nothing on standard output and names the library's error code and text. "
  "Reading the frame from a file equals passing it as an argument.",
  ["inputs", "configurations"], "all option combinations over generated frames, malformed inputs and malformed options",
  "Option wiring is a product of switches; the project has almost no tests of the tool itself.",
  ["cli/src/main.rs"], [("option handling", "cli/src/main.rs")],
  ["exit status, standard output and standard error of the built tool"])

p("C21", "The Python module returns exactly what the library returns",
  "For every input as text or bytes, key as text or bytes, format, width and enrichment flag, the Python functions return the library's decoded structure, records or rendering, or raise the module's error naming the library's error code and text. "
  "Text and bytes spellings of the same frame give equal results.",
  ["inputs", "configurations"], "all function and argument-type combinations over generated frames, record blocks and malformed inputs",
  "Argument conversion is a product of types and options; the seven Python tests use single examples.",
  ["python/src/lib.rs", OUT], [("argument conversion", "python/src/lib.rs")],
  ["return values and exceptions of the built module"])

p("C22", "The web bindings render like the library and highlight without loss",
  "For every frame text, format, key, width and enrichment flag that the library renders, the web binding returns the same text, and it reports an error whenever the library does. "
  "For every source text and language the highlighter returns HTML whose only tags are its own spans, properly nested, and whose text content, with tags removed and entities resolved, is exactly the source.",
  ["inputs"], "generated frames in all formats; all source texts and language names",
  "Escaping and option wiring range over all texts; tests use a few strings.",
  ["wasm/src/lib.rs", "wasm/src/highlight.rs"], [("render binding", "wasm/src/lib.rs"), ("highlighter", "wasm/src/highlight.rs")],
  ["values returned by the exported functions when built natively"])

p("C23", "The legacy serialisation entry point stays consistent with the decoder",
  "For every frame and every canonical format name the string-based entry point returns exactly the canonical rendering at width 100 with enrichment, or a one-line text naming the error code. "
  "For the legacy JSON, YAML and CSV names it returns parseable documents whose identity fields, record count and raw numbers agree with the low-level decode of the same frame.",
  ["inputs"], "all decodable wired and wireless frames and malformed inputs, all format names and aliases, with and without key",
  "The legacy formats duplicate the decoding paths; tests pin a few complete outputs.",
  [MB, "src/lib.rs"], [("legacy serialisation", MB)],
  ["returned string, parsed by independent JSON, YAML and CSV readers"])

p("C24", "A record decodes the same wherever and in whatever frame it stands",
  "The decoded fields of a record depend only on the record's own bytes: they are the same alone, after any other records, before any other records, with fillers inserted between records, in a wired or wireless frame, under any transport header (of the usual byte order, see C41), in the stand-alone record decode and in stand-alone blocks of up to 2000 bytes. "
  "Only the record index and its position change.",
  ["inputs"], "all pairs of record sequences, filler placements and transports",
  "It is a relation between decodes of different inputs, which example tests with fixed outputs do not state.",
  [VU, OUT, LB, "src/lib.rs"], [("record iterator", VU), ("record output", OUT)],
  ["canonical records", "stand-alone record decode"])

p("C25", "The low-level API agrees with the canonical output",
  "For every frame the low-level frame, user data and record types that embedded users call directly report the same frame kind, address, identity, access number, status, storage, tariff, subunit, raw numbers and record boundaries as the canonical output. "
  "The key store returns exactly the key registered for an identity, reports unknown identities as missing and refuses more keys than its capacity.",
  ["inputs", "histories"], "all decodable frames; all sequences of key registrations and lookups over small identity sets and capacities 1..8",
  "Two parallel decode paths and a stateful store; tests exercise them separately on fixed data.",
  [LB, VU, MB, DEC, WD, WL], [("low-level frame and record types", MB), ("static key store", DEC)],
  ["values of the low-level types", "key store results"])

p("C26", "Identity codecs are exact inverses over their whole code space",
  "Every manufacturer code of three letters A to Z converts to its 15-bit code and back unchanged, and other codes are refused; every BCD identification number reads as its eight digits, and non-decimal nibbles are refused. "
  "Every device type byte, configuration word, security mode and function code converts to the entry the standard assigns and back to the same byte where a conversion back exists.",
  ["inputs"], "all 65536 manufacturer and configuration words, all device type, mode and function bytes (exhaustive), sampled identification numbers",
  "The spaces are enumerable but tests check single values.",
  [CORE, WD, WL], [("manufacturer, device type, security mode and function tables", CORE)],
  ["conversion results", "meter identity in the canonical output"])

p("C27", "The plain text position option changes only where the text stands",
  "A frame whose plain text units, each followed by value extensions, are written before those extensions decodes, in the build configured for that position, to the same functions, quantities, units and values as the frame with the text after the extensions decodes in the default build. "
  "Frames without plain text units give identical output in both builds.",
  ["configurations", "inputs"], "all frames with and without plain text units, both build configurations",
  "It relates two builds; each test run sees only one build.",
  [VI, ANN], [("plain text position", VI)],
  ["canonical output of both builds"])

p("C28", "Options and repetition never change the decoded measurements",
  "Decoding the same input twice gives byte-identical results; switching enrichment on or off, choosing a table width or supplying a key to a cleartext frame changes nothing but the enrichment section, the layout or the key-related notes. "
  "Enrichment is the directory entry of the manufacturer code reported as the meter's identity, and is absent for codes the directory does not list.",
  ["inputs", "histories"], "all decodable frames and all option pairs, interleaved in one process",
  "It is a relation between runs with different options; tests use one option set per frame.",
  [OUT, "src/manufacturers.rs"], [("enrichment", OUT), ("manufacturer directory", "src/manufacturers.rs")],
  ["decoded output structures and renderings compared pairwise"])

p("C29", "Annotation details and annotated text quote the bytes they describe",
  "The detail of every annotation segment quotes the value of its own bytes: codes and counts as encoded, the header kind its control information announces, multi-byte numbers and identities in the right byte order, record values as the raw decoded value; a field cut by a block CRC keeps one detail on both parts. "
  "The annotated text shows every byte of the input in its hex dump and every segment with its position, bytes and detail under the headings of its layer and record.",
  ["inputs", "configurations"], "all accepted wired and wireless frames in every CRC layout, all header kinds, all record sequences, encrypted frames with and without key, both plain text configurations",
  "Details are formatted separately from decoding for each of dozens of field kinds; tests look at selected details of a few frames.",
  [ANN, DI], [("segment details", ANN), ("annotated text rendering", ANN), ("display of decoded values", DI)],
  ["details of the annotation segments", "annotated JSON and text outputs"])

p("C30", "The library built without std or without decryption decodes the same",
  "For every input the low-level frame, user data, record and decryption calls give the same result in builds without std as in the full build. "
  "A build without the decryption feature gives the same output in every format for every call without a key; with a key it answers encrypted payloads with a security error saying so and treats every other frame the same.",
  ["inputs", "configurations"], "valid, damaged, captured and random frames and data blocks, all formats, keys present or not, builds with no features, decryption only, and std only",
  "Feature combinations change which code is compiled; the tests of each combination use a few fixed frames and never compare combinations.",
  [LB, VU, DI, VI, WD, WL, CORE, DEC, OUT, MB], [("feature-gated code", LB), ("decryption gate", OUT), ("low-level decryption", DEC)],
  ["values of the low-level types in each build", "rendered outputs and error codes in each build"])

p("C31", "Display texts of low-level types state what was decoded",
  "The display text of a decoded record's data states its raw value or that there is none, that of its data information the storage number, function and coding, and that of its value information the offset and scale exponents when not zero, the units with their exponents and the quantities, in that order. "
  "The display texts of status, configuration, function, address, reset subcode, identification number and counter state exactly the encoded code. "
  "The text of an error names its kind and states the values it carries, and stays the same when the error is wrapped in that of the library.",
  ["inputs", "configurations"], "all generated records over all codings and value information codes, all 65536 configuration words, all status, address, function and reset subcode bytes, decimal identification numbers and counters, all error kinds with all values they carry, both plain text configurations",
  "The texts are built from value, scale, unit exponent and label independently; tests compare some thirty fixed strings.",
  [DI, VI, LB, CORE, WD], [("display of records", VI), ("display of values", DI), ("display of codes", CORE)],
  ["display texts of the low-level types"])

p("C32", "Control information codes are read, reported unsupported or refused as listed",
  "For every control information code and every payload behind it, the application layer is read with the layout of that code, reported as unsupported naming the code's meaning, refused as an unknown code naming its value, or reported as cut or malformed when its header is incomplete. "
  "The canonical output of a payload that is not read is partial, carries exactly that message, keeps the link's identity and shows no transport fields and no records. "
  "A code that only a meter, or only its reader, may send is given that direction.",
  ["inputs"], "all 256 codes, payload lengths 0..39 and random payloads, nested extended link layers, wired and wireless frames",
  "The code table has 256 entries and each layout its own minimum length; tests cover some ten codes.",
  [LB, CORE, OUT], [("control information table", LB), ("application layer parse", LB), ("application diagnostics", OUT)],
  ["low-level application layer result", "canonical output: diagnostics, transport, meter and records"])

p("C33", "The legacy diagram and annotation outputs agree with the decoder",
  "For every accepted frame the legacy Mermaid function gives a well-formed flowchart (quoted one-line labels, each node defined once, edges and styles naming defined nodes) that states the function and address or the link identity, a long header's identity, access number and status, and one node with the display text per decoded record, none for an encrypted payload. "
  "The legacy annotation formats return exactly the segments of the frame, or of the decrypted frame when the key fits, and an error object for anything that is not a frame.",
  ["inputs"], "all wired and wireless frames, all header kinds and record sequences with hostile texts, encrypted frames with and without key, texts that are not frames",
  "The legacy functions build their documents separately from the canonical formats; tests look for single substrings of a few diagrams.",
  [MB, ANN], [("legacy Mermaid rendering", MB), ("legacy annotation formats", MB)],
  ["legacy Mermaid text read by a strict parser", "legacy annotation JSON"])

p("C34", "Errors carry the code, layer, place and text of their cause",
  "Every refused call gives the code and layer of its one cause: empty input, invalid hexadecimal text with the place and text of the first token that is no byte, bytes that are no frame with both links' reasons, a format name not listed, a table width below 32, a key for a mode that cannot be decrypted, a frame kind the XML or annotated format does not cover, or a stand-alone record block with the offset of the record that cannot be decoded. "
  "A format name is accepted exactly when, trimmed and ignoring ASCII case, it is one of the listed names or aliases, and every format's own name reads back as that format.",
  ["inputs"], "format names with edits, hexadecimal texts with damage at known places, frames, options, keys and record blocks with one fault of a known kind",
  "Causes occur at every place of every input; tests check one error per code.",
  [OUT], [("error taxonomy", OUT), ("format names", OUT), ("hexadecimal input", OUT)],
  ["code, layer, place and text of the returned errors"])

p("C35", "Every output accounts truthfully for completeness, protection and raw bytes",
  "Every decoded output is marked partial exactly when it carries a warning, and carries exactly the notes that apply: unreadable application header, record that cannot be decoded (with its offset), missing key, unauthenticated decryption, unused key, each once with its layer and severity. "
  "Payload protection, decryption state, security mode, key mark, encrypted and decrypted payload, input text, original and normalised frame, length and payload agree with the input and with each other.",
  ["inputs"], "all header kinds, clear, encrypted and decrypted frames, intact, damaged and unreadable, with and without key, bytes and texts, all CRC layouts",
  "The notes and states are combinations of link, header, security and record outcomes; tests see a few combinations.",
  [OUT], [("diagnostics and security section", OUT), ("raw section", OUT)],
  ["diagnostics, decode state, security and raw sections of the canonical output"])

p("C36", "Link layers name the fault of a frame, and the CRC helpers are exact",
  "A wired or wireless frame with a single fault is refused with that fault's error: wrong checksum with both values, start byte, length indication, stop byte of a long frame, function with its byte, wireless length with both values, cut header, empty data. "
  "A trailing CRC is recognised exactly when there are at least 12 bytes and the last two are the CRC-16/EN 13757 of all before. "
  "Format A CRCs are stripped exactly when the first block's CRC is right and the buffer has room for the input, and give the block contents with the length byte of the stripped frame.",
  ["inputs"], "wired and wireless frames with one fault of each kind at any place; byte strings with intact, damaged, cut and missing CRCs; buffers that are large, just enough and too small",
  "Each fault is found by a check of its own, and later checks run only if earlier ones pass; tests look at one instance of a few of them.",
  [WD, WL, CORE], [("wired frame parse", WD), ("wireless frame parse and CRC helpers", WL), ("frame errors", CORE)],
  ["errors of the frame parsers and results of the CRC helpers of the low-level crates"])
p("C37", "Serialised low-level values read back as the same values",
  "Every low-level value of a decoded frame or record that offers both serialisation and deserialisation (function, address, identities, transport headers, extended link layer, counters, record headers, value information, date and time parts, frame errors) equals what is read back from its JSON text and YAML text. "
  "The manufacturer of a long transport header is excepted, as it is declared not to be read back.",
  ["inputs"], "frames with every header kind and record sequences, intact and with a flipped bit",
  "The two directions are derived from attributes on many types; no test reads anything back.",
  [LB, VU, DI, VI, WD, WL, CORE], [("serialised low-level types", LB), ("record header types", VU), ("value information types", VI)],
  ["values read back with serde from JSON and YAML"])

p("C38", "Low-level decryption gives the cleartext or names why it cannot",
  "For every user data block, security mode, key and output buffer, the low-level decryption calls either write exactly the cleartext and report its length, leaving the buffer behind it untouched, or refuse with a reason that applies: not encrypted, header without identity or not decryptable, invalid manufacturer, key missing, key not 16 bytes long, mode unsupported, payload empty or buffer too small. "
  "The key provider is asked with the identity, security mode and access number of the data: those of a long header itself, else those given by the caller.",
  ["inputs"], "all header kinds and 32 security modes, payloads of 0..14 blocks with and without a shorter clear tail, right, missing and wrongly sized keys, buffers with spare, exact and too little room",
  "The outcome depends on header kind, mode, key, payload length and buffer together; tests decrypt a few captured telegrams with ample buffers.",
  [DEC, LB], [("AES-CBC and initial vector", DEC), ("decryption with header or caller identity", LB)],
  ["results, output buffers and key requests of the low-level decryption calls"])

p("C39", "Record headers come apart byte by byte, and a refusal names its part",
  "For every record the low-level blocks and headers hold exactly its DIF, DIFEs (read from either end), VIF, VIFEs and plain text, sizes are the number of bytes taken, and record, header, data coding and list give the same result alone, before other bytes and with a transport header. "
  "Every shorter beginning of a record is refused: as no data when empty, as too short when it ends within the header and as insufficient data when it ends within the data; headers beyond the parser's limits, wrong BCD digits and reserved length bytes are refused with their own errors.",
  ["inputs", "configurations"], "all codings, DIFE chains of 0..40, VIFE chains of 0..40, plain text units of 0..60 characters, special functions, every shorter beginning of each record, both plain text configurations",
  "Each cut of each header shape has its own outcome; tests look at single blocks and rarely at the reason of a refusal.",
  [DI, VI, AL + "data_record.rs", VU, LB], [("data information block", DI), ("value information block", VI), ("record header and record", AL + "data_record.rs")],
  ["low-level blocks, headers, records and errors"])

p("C40", "Legacy documents carry the low-level structure of the frame in full",
  "For every accepted frame the legacy JSON and YAML documents hold the same four sections (frame, user data, records, summary), in which every field of the decoded link, transport header, extended link layer and record header is written with its value, byte strings as upper-case hexadecimal, and values by their kind. "
  "The summary of a record states its display text, number, scale exponent, unit, quantity, coding and bytes, the summary of a frame the directory entry of its manufacturer and, exactly while encrypted, its payload; the legacy CSV has the cells of the summary in a fixed order of columns.",
  ["inputs"], "wired and wireless frames of all kinds, all headers and record codings, encrypted with and without a key, damaged record blocks (their full record list is not judged)",
  "The documents are written by derived serialisation of dozens of types; tests compare a few captured frames.",
  ["src/mbus_data.rs", DI, VI, AL + "data_record.rs", LB, "crates/wireless-mbus-link-layer/src/lib.rs", "crates/m-bus-core/src/lib.rs"], [("summaries and documents", "src/mbus_data.rs"), ("bytes as hexadecimal text", "crates/m-bus-core/src/lib.rs"), ("serialised record", AL + "data_record.rs")],
  ["legacy JSON, YAML and CSV texts"])

p("C41", "Responses sent most significant byte first differ in nothing but byte order",
  "A long header with control information 76h is read like one with 72h, except that the identification number and every decimal (BCD) value, of fixed or variable length, positive or negative, in the clear or decrypted, are taken most significant byte first. "
  "A 76h frame in which these bytes are reversed therefore gives the same decoded output, low-level values, annotation roles and values, and legacy documents as the 72h frame, apart from the bytes themselves; its identification number and decimal values are those written by its bytes in order.",
  ["inputs"], "all long headers and record sequences, wired and wireless, in the clear and encrypted with the key at hand; the rSCADA XML is not judged",
  "The byte order must reach every place that reads a decimal number; tests hold one captured frame of this kind.",
  [LB, DI, AL + "data_record.rs", OUT, ANN, MB], [("byte order of the control information", LB), ("decimal digits", DI), ("records of a frame", MB), ("exact decimal of long numbers", OUT)],
  ["canonical decoded output: identity and values", "low-level record values", "annotation details", "legacy JSON, CSV and diagram"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
