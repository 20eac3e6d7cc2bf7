#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list lives here so it is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=None)))

prop("C01", "Parsing is total: every input yields a result or an error, never a crash",
 "For every byte string, in every option combination, parsing terminates and returns either a packet listing or an error. It never panics, never hangs, and never reports a negative size.",
 ["inputs", "configurations"], "all byte strings (malformed, truncated, hostile included) x all option sets",
 "Tests feed a few dozen well-formed samples; none enumerates damaged lengths, versions or truncations.",
 ["parse/parse.go", "parse/parser.go", "parse/tags", "parse/pubkey", "parse/s2k", "parse/reader/reader.go"],
 [("bounds-checked cursor", "parse/reader/reader.go ReadBytes"), ("error returns instead of index panics", "parse/tags/*.go")],
 ["parse.NewBytes(...).Parse()"])

prop("C02", "Packet framing: every packet listed once, in order, with its true tag and size",
 "For a well-formed OpenPGP stream the listing contains exactly one top-level entry per packet, in stream order, each carrying the packet's tag number, its name and its exact body length in bytes. This holds for old-format headers with 1-, 2-, 4-octet and indeterminate lengths and for new-format headers with 1-, 2-, 5-octet and partial lengths, for every tag 0-63 including unknown and private ones. One packet's bytes never leak into a neighbour. The packet reader (Next, Parse) gives the same entries for the packets parsed, whichever others are passed over.",
 ["inputs"], "all sequences of packets x all header encodings of each length",
 "Tests construct packets directly from bodies or use a few samples with one header encoding each.",
 ["parse/tags/packets.go", "parse/tags/tags.go", "parse/values/tagid.go", "parse/parse.go"],
 [("packet loop", "parse/parse.go Parse"), ("tag dispatch", "parse/tags/tags.go newFunctions")],
 ["parse.NewBytes(...).Parse(): top-level items' name and note"])

prop("C03", "Damaged or truncated input is reported as an error, never silently accepted",
 "If the stream ends inside a packet header or body, if a packet body ends inside one of its mandatory fields or multi-precision integers, if a subpacket's declared length does not fit, or if bytes that are not a packet header follow, parsing returns an error. The packets fully read before the fault stay in the returned listing, and nothing is listed for the faulty packet. (Only the trailing ECDH parameter field may be absent.)",
 ["inputs"], "every truncation point and length-field corruption of every packet kind",
 "No test feeds a truncated signature, key or session-key packet; error paths are almost entirely uncovered.",
 ["parse/parse.go", "parse/tags", "parse/pubkey", "parse/values/mpi.go", "parse/values/ecc.go", "parse/s2k/s2k.go", "parse/reader/reader.go"],
 [("per-field error checks", "parse/tags/*.go"), ("EOF vs unexpected EOF", "parse/reader/reader.go ReadBytes, parse/parse.go Parse")],
 ["parse.NewBytes(...).Parse(): error and partial listing"])

prop("C04", "Signature packets: every field of v3, v4 and v5 signatures decoded faithfully",
 "For every signature packet the listing reports version, signature type, public-key algorithm, hash algorithm, the left 16 bits of the hash and the algorithm's signature integers (with their exact bit lengths), plus creation time and key ID for v3, in order and with the values in the packet. Hashed and unhashed subpacket areas are listed separately with their own sizes, and any bytes after the last field are reported as unknown data.",
 ["inputs"], "all signature packets: versions x types x algorithms x area sizes x integer lengths x trailing bytes",
 "Tests check a handful of real signatures with one algorithm combination each.",
 ["parse/tags/tag02.go", "parse/pubkey/parse_sig.go", "parse/values/sigid.go", "parse/values/mpi.go"],
 [("sequential field reader", "parse/tags/tag02.go"), ("algorithm dispatch", "parse/pubkey/parse_sig.go ParseSig")],
 ["listing of tag 2 packets"])

prop("C05", "Signature subpackets: order, type, criticality and content reported faithfully",
 "Within each subpacket area every subpacket is listed once, in order, with its type number and name, its critical mark exactly when the critical bit is set, and its decoded content: times, flags octet by octet, preference lists in order, key IDs and fingerprints, notation name/value pairs, revocation reasons, targets, embedded signatures and embedded key blocks. Unknown, reserved and private types are listed with their size and do not disturb their neighbours. One-, two- and five-octet subpacket lengths are equivalent.",
 ["inputs"], "all subpacket types 0-127 x critical bit x bodies x length encodings x orders x both areas",
 "Tests cover one or two bodies for some types; flags, notation lengths, reserved types and length encodings are not varied.",
 ["parse/tags/subs.go", "parse/tags/subParser.go", "parse/tags/sub02.go", "parse/tags/sub20.go", "parse/tags/sub27.go", "parse/tags/sub32.go", "parse/tags/sub38.go", "parse/values/subpacketid.go"],
 [("subpacket dispatch", "parse/tags/subs.go NewSubs"), ("per-type decoders", "parse/tags/sub*.go")],
 ["subpacket items of tag 2 packets"])

prop("C06", "Public keys: version, time, algorithm and key material decoded faithfully",
 "For every public-key and public-subkey packet of version 3, 4 or 5 the listing reports version, creation time (and validity days for v3), algorithm, and exactly the algorithm's parameters in order (RSA, DSA, Elgamal, ECDH, ECDSA, EdDSA) with exact bit lengths, curve name, point format and KDF parameters. Unknown algorithms and versions are shown as opaque data of the right size, and bytes after the key material are reported as unknown data.",
 ["inputs"], "all key packets: versions x 256 algorithms x curves x point formats x integer lengths x v5 counts",
 "Tests use a few real keys; no v3, v5-count, curve or point-format variation.",
 ["parse/tags/tag06.go", "parse/tags/tag14.go", "parse/tags/pubkey.go", "parse/pubkey/parse_pub.go", "parse/values/ecc.go"],
 [("version dispatch", "parse/tags/pubkey.go Parse"), ("algorithm dispatch", "parse/pubkey/parse_pub.go ParsePub")],
 ["listing of tag 6/14 packets and of the public part of tag 5/7"])

prop("C07", "Secret keys: protection scheme, S2K, IV and secret material decoded faithfully",
 "For every secret-key and secret-subkey packet the listing reports, for each S2K usage octet, how the material is protected: cipher, AEAD mode, S2K specifier (hash, salt, iteration count, card stub), an IV of the cipher's block size, and then either the named plain integers and checksum or the encrypted material with its size. Version 5 length-counted fields delimit exactly what is read from them, and a usage octet naming a cipher directly is taken as that cipher.",
 ["inputs"], "all secret-key packets: usage octets x ciphers x S2K kinds x algorithms x v4/v5 counts x truncations",
 "Tests decode a few real secret keys with usage 0/254; usage 253, 1-252, v5 counts and card stubs barely appear.",
 ["parse/tags/tag05.go", "parse/tags/tag07.go", "parse/tags/seckey.go", "parse/s2k/s2k.go", "parse/pubkey/parse_secplain.go", "parse/pubkey/parse_secenc.go", "parse/values/s2kid.go", "parse/values/symid.go"],
 [("usage dispatch", "parse/tags/seckey.go Parse"), ("S2K decoder", "parse/s2k/s2k.go Parse"), ("IV length table", "parse/values/symid.go IVLen")],
 ["listing of tag 5/7 packets"])

prop("C08", "Session-key and one-pass packets: recipients and algorithms decoded faithfully",
 "For every public-key session-key, symmetric-key session-key and one-pass-signature packet the listing reports version, key ID (16 hexadecimal digits, as in the packet), algorithms, S2K specifier and the algorithm's encrypted integers with exact bit lengths, and the nesting flag, in order. Bytes after the last field are reported as unknown data; the content of a symmetric-key session-key packet of another version than 4 is shown as opaque data.",
 ["inputs"], "all tag 1, 3, 4 packets: versions x key IDs x algorithms x S2K kinds x integer lengths x trailing bytes",
 "Tests cover one or two real packets of each kind.",
 ["parse/tags/tag01.go", "parse/tags/tag03.go", "parse/tags/tag04.go", "parse/pubkey/parse_ses.go", "parse/s2k/s2k.go", "parse/values/keyid.go"],
 [("sequential field readers", "parse/tags/tag01.go, tag03.go, tag04.go")],
 ["listing of tag 1/3/4 packets"])

prop("C09", "Data packets: literal, marker, trust, user ID, attributes, AEAD decoded right",
 "For every literal, marker, trust, user-ID, user-attribute, encrypted-data, MDC, AEAD-encrypted, private and unknown packet the listing reports its header fields (format, file name, time, version, cipher, AEAD mode, chunk size, IV of the mode's nonce size, image attribute version and image size) and the exact size of its payload. User IDs and file names appear as the text in the packet.",
 ["inputs"], "all bodies of tags 9-13, 17-20, 60-63 and unassigned tags up to the bound",
 "No test covers trust, user-attribute, MDC or AEAD packets; literal and user-ID tests use one or two samples.",
 ["parse/tags/tag11.go", "parse/tags/tag13.go", "parse/tags/tag17.go", "parse/tags/sub01.go", "parse/tags/tag20.go", "parse/tags/tagPrivate.go", "parse/tags/tagUnknown.go", "parse/values/literal.go", "parse/values/aeadid.go"],
 [("per-tag decoders", "parse/tags/tag*.go"), ("nonce table", "parse/values/aeadid.go IVLen")],
 ["listing of those packets"])

prop("C10", "Encrypted data is described by its own message's session keys only",
 "In every packet sequence an encrypted-data packet is described as keyed by a public-key session key, by a symmetric-key session key, or by neither, according to the last session-key packet since the previous encrypted-data packet. After any encrypted-data packet (plain, integrity-protected or AEAD) the association is forgotten, so it never carries over to a later message.",
 ["histories"], "all sequences of session-key, encrypted-data and other packets up to the depth bound, including inside compressed packets",
 "Tests set the mode by hand and parse one packet; no sequence of two messages is tested.",
 ["parse/context/symalgmode.go", "parse/tags/tag01.go", "parse/tags/tag03.go", "parse/tags/tag09.go", "parse/tags/tag18.go", "parse/tags/tag20.go"],
 [("mode set by session-key packets and reset by data packets", "parse/context/symalgmode.go")],
 ["'Encrypted data' items of tag 9/18 packets"],
 [("SymAlgMode", "which kind of session key was seen last", "parse/context/context.go")])

prop("C11", "Expiration dates are computed from the right creation time, or not shown",
 "In every packet sequence the end date shown for a signature expiration equals that signature's own creation time plus the period, and the end date shown for a key expiration equals the creation time of the key packet it follows plus the period; dates beyond the 32-bit range are not wrapped. If no such creation time is known yet, no end date is shown: a date is never taken from another signature, an embedded signature, an embedded key block, or an earlier key.",
 ["histories", "inputs"], "all sequences/nestings of key packets, signatures and time subpackets up to the depth bound x boundary times",
 "Tests use one key time with a 7-day period; no history with two signatures, nesting or large values.",
 ["parse/tags/sub02.go", "parse/tags/sub03.go", "parse/tags/sub09.go", "parse/tags/pubkey.go", "parse/tags/sub32.go", "parse/tags/sub38.go", "parse/values/expire.go", "parse/context/context.go"],
 [("creation times carried in the context", "parse/context/context.go SigCreationTime, KeyCreationTime"), ("end date arithmetic", "parse/values/expire.go ToItem")],
 ["notes of 'Signature Expiration Time' / 'Key Expiration Time' items"],
 [("SigCreationTime", "creation time of the signature being read", "parse/context/context.go"), ("KeyCreationTime", "creation time of the last key packet", "parse/context/context.go")])

prop("C12", "Compressed packets: contents listed as if uncompressed; corruption is an error",
 "For every packet sequence wrapped in a compressed-data packet (uncompressed, ZIP, ZLIB or BZip2) the entries nested in it equal the listing of the sequence itself, and what precedes and follows is unaffected; a compressed packet inside another one (or inside an embedded key block) is listed with its algorithm and size and not expanded further. Corrupted or truncated compressed data is an error; an unknown algorithm lists only the compressed size; data that expands to the 1 GiB limit or beyond is flagged as too large instead of being expanded.",
 ["inputs", "fault_sequences"], "packet sequences x 4 algorithms x every truncation/corruption point of the compressed bytes x limit boundary",
 "Tests contain one compressed sample; no corruption, no BZip2/uncompressed variety, no limit.",
 ["parse/tags/Tag08.go", "parse/tags/packets.go"],
 [("decompression with size cap", "parse/tags/Tag08.go copyFrom"), ("nested packet loop", "parse/tags/packets.go Parse")],
 ["nested items of tag 8 packets"])

prop("C13", "ASCII armor: armored input lists exactly what its binary form lists",
 "For every packet stream, the listing of its ASCII-armored form equals the listing of the binary form, whatever armor headers, line ends, surrounding text or cleartext-signed message precede or follow it; only the first armor block counts, and input holding a complete armor block at the start of a line is always read as armored. In armor-only mode input without a complete armor block is rejected; a wrong checksum or damaged base64 is an error in every mode.",
 ["inputs", "configurations"], "streams x armor types x headers x line endings x surrounding text x damage x armor-only on/off",
 "Tests check three texts for boundary extraction and one armored signature.",
 ["armtext/armtext.go", "parse/parser.go"],
 [("armor block extraction", "armtext/armtext.go Get"), ("fallback to binary", "parse/parser.go New")],
 ["parse.New(...).Parse() on armored vs binary input", "armtext.Get"])

prop("C14", "The listing depends only on the input bytes, not on how they are delivered",
 "For every input, the result is the same for every way a reader may legally deliver the bytes: any chunking, empty reads, end-of-file together with or after the last bytes, any total size and any line length. If reading fails at any point, parsing reports that failure instead of listing the bytes read so far.",
 ["fault_sequences", "inputs"], "all chunkings / read faults at every offset of the sample inputs; long-line and large inputs",
 "Tests read from in-memory buffers only.",
 ["parse/parser.go", "armtext/armtext.go", "parse/tags/packets.go"],
 [("input buffering", "parse/parser.go New"), ("line scanner", "armtext/armtext.go Get")],
 ["parse.New(cxt, reader).Parse()"])

prop("C15", "Byte dumps appear only when asked: each flag reveals only its own kind",
 "For every input and every combination of the dump options, the listing differs from the one without options only by added byte dumps: integers (and ECDH fields) only with the integer option, literal data and file name only with the literal option, marker data only with the marker option, private packets only with the private option, attested certifications only with the certification option, and everything with debug. Structure, names, values and notes are the same under all options, and every dump shown is the exact hexadecimal of the bytes it belongs to.",
 ["configurations", "inputs"], "all 2^8 option sets x one sample per packet/field kind plus the real samples",
 "Tests always switch all dump options on together.",
 ["parse/context/context.go", "parse/context/options.go", "parse/values/dump.go", "parse/values/mpi.go", "parse/tags/tag10.go", "parse/tags/tag11.go", "parse/tags/sub37.go", "parse/tags/tagPrivate.go"],
 [("option predicates", "parse/context/context.go"), ("conditional dumps", "parse/values/dump.go")],
 ["dump fields of the listing"])

prop("C16", "JSON and text output carry the same complete listing",
 "For every result, decoding the JSON output gives back exactly the listing (names, values, notes, dumps and nesting, at every indent size), and the text output shows the same entries in the same order, one line per entry plus one per dump, indented by depth with the chosen indent. Rendering does not alter the listing and is repeatable.",
 ["inputs", "configurations"], "all result trees up to a shape bound with special characters x indents x real listings",
 "Tests compare one JSON and one text rendering.",
 ["parse/result/result.go", "facade/facade.go"],
 [("JSON encoding", "parse/result/result.go JSON"), ("text rendering", "parse/result/result.go ToString")],
 ["Info.JSON, Info.ToString, Info.String, command output"])

prop("C17", "Packet text is shown without control characters",
 "For every input, no name, value, note or dump in the listing contains a control character (C0, DEL, C1) or invalid UTF-8: control characters of user IDs, file names, URIs, notations and format octets are shown as (U+XXXX), other text is shown unchanged, and text that is not valid UTF-8 is shown as a byte dump only.",
 ["inputs"], "all text fields x all code points up to the bound, all short byte strings",
 "Tests use plain ASCII names.",
 ["parse/values/literal.go", "parse/tags/tag13.go", "parse/tags/tag11.go", "parse/tags/sub20.go", "parse/tags/sub29.go"],
 [("control character escape", "parse/values/literal.go Text.ToItem")],
 ["values of text items"])

prop("C18", "Command outcome: exit status, output and error streams always agree",
 "For every command line and input, the command exits 0 with the complete listing on standard output and nothing else there, or exits 1 with a message on standard error and no listing on standard output; with --debug a failure of a dump command (plain, hkp, github, fetch) is printed on standard output instead and the exit status is 0. Without --debug, read failures of the input and write failures of the output at any byte are reported by exit status 1. Version, help and usage text go to standard error.",
 ["configurations", "inputs", "fault_sequences"], "flag combinations x inputs (good, damaged, empty) x write failure at every offset",
 "Tests check a few exit codes with fixed arguments.",
 ["facade/facade.go", "facade/debug.go", "facade/version.go", "facade/completion.go", "main.go"],
 [("error propagation", "facade/facade.go newRootCmd RunE, Execute"), ("debug printing", "facade/debug.go debugPrint")],
 ["facade.Execute exit code, stdout, stderr; built command"])

prop("C19", "Command options select exactly the documented behaviour, run after run",
 "For every combination of options (long or short, in any order) the output equals the library listing under the corresponding options, in the chosen format and indent, whether input comes from standard input, --file or --clipboard (which accepts armor only and cannot be combined with --file). Repeated runs in one process do not influence each other.",
 ["configurations", "histories"], "flag subsets x sources x formats; all sequences of runs up to the depth bound",
 "Tests run single invocations with one or two flags.",
 ["facade/facade.go", "facade/clipboard/clipboard.go"],
 [("flag to option mapping", "facade/facade.go parseContext, marshalPacketInfo"), ("package-level flag variables", "facade/facade.go")],
 ["facade.Execute output", "built command with a stand-in clipboard tool"],
 [("jsonFlag/indentSize/filePath/cbFlag/debugFlag", "flag values shared between runs", "facade/facade.go")])

prop("C20", "HKP: one correctly encoded lookup; responses listed, failures reported",
 "For every key server name, port, protocol and search text the hkp command issues exactly one GET of <scheme>://<host>:<port>/pks/lookup with op=get and the search text encoded so that the server decodes it unchanged (redirections are followed). A response with an armor block (possibly inside HTML) is listed as that block is, or passed through byte for byte with --raw; an HTTP error status, transport error, broken body or response without an armor block is an error with no listing, and the response body is always closed.",
 ["inputs", "fault_sequences", "configurations"], "search texts over a special-character alphabet x server settings x status codes x body faults at every offset",
 "Tests only format two URLs; nothing fetches.",
 ["hkp/hkp.go", "facade/hkp.go"],
 [("query encoding", "hkp/hkp.go Fetch"), ("armor-only parse", "facade/hkp.go")],
 ["requests seen by the HTTP transport, hkp.Server.URL/String, command output"])

prop("C21", "GitHub: the right user's keys are requested and the requested key is returned",
 "For every user name the github command requests that user's key file, and with a key ID it walks the key pages of that user in order until a key with that ID (any case, optional 0x) is found and returns exactly that key's armored text; user names are percent-encoded as one path segment so that they cannot alter the request. If no page holds the key, the key has no text, a page is malformed or a request fails, it reports an error; it requests no page beyond the one found or the first short page, and never crashes.",
 ["inputs", "fault_sequences", "histories"], "user names over a special-character alphabet x page histories (full/short/empty/malformed/failing) x key positions x key-ID spellings",
 "Tests only format two URLs; pagination and selection are untested offline.",
 ["github/github.go", "github/structs.go", "facade/github.go"],
 [("page walk", "github/github.go GetKey"), ("URL construction", "github/github.go makeURL, makeURLAPI")],
 ["requests seen by the HTTP client, github.GetKey result, command output"])

prop("C22", "Fetch: the resource at the URL is listed like a local file; failures reported",
 "For every response the fetch command issues one GET of exactly the given URL, follows redirections, and prints what parsing the body as a file would print (armored or binary), or the body byte for byte with --raw. Invalid URLs, wrong argument counts, HTTP error statuses, transport errors and bodies that break off at any point are errors with no listing, and the response body is always closed.",
 ["inputs", "fault_sequences", "configurations"], "URLs x status codes x bodies x body faults at every offset x flags",
 "No test runs the fetch command.",
 ["facade/fetch.go", "parse/parser.go"],
 [("fetch and parse", "facade/fetch.go")],
 ["requests seen by the HTTP transport, command output and exit code"])

prop("C23", "Packet cursor: every operation sequence agrees with a simple byte-array model",
 "For every byte buffer and every sequence of read, read-at, read-byte, read-to-end, seek, write-to and dump operations, the cursor returns exactly the bytes between its position and the requested end, moves by exactly that amount, and leaves the position unchanged on failure (a read-at keeps the valid offset it was given; a write-to copies the whole buffer and moves to its end). The position always stays within the buffer, the remaining size is never negative, and reading past the end is an end-of-file error (unexpected if some bytes remain).",
 ["histories"], "all operation sequences up to the depth bound x buffers x argument domains",
 "Tests run each operation once or twice from the start.",
 ["parse/reader/reader.go"],
 [("bounds and offset bookkeeping", "parse/reader/reader.go")],
 ["reader.Reader methods"],
 [("offset", "current position", "parse/reader/reader.go")])

prop("C24", "Parsers are deterministic and independent, in any order and interleaving",
 "Parsing an input always gives the same result, whatever was parsed before in the same process and however the steps of several parsers with their own contexts are interleaved, including in parallel. No parser writes to its input, to another parser's result, or to shared state.",
 ["schedules", "histories"], "all interleavings of two/three parsers' packet steps, all ordered pairs of samples, race-detector run",
 "Tests run each input once, sequentially.",
 ["parse/tags/packets.go", "parse/tags/tags.go", "parse/tags/subs.go", "parse/context/context.go", "parse/values"],
 [("state only in parser and context", "parse/tags/packets.go, parse/context/context.go"), ("read-only tables", "parse/values/*.go")],
 ["listings of interleaved parsers; race detector"])

prop("C25", "Every identifier octet is named as registered, for all 256 values",
 "For each of the 256 values of the symmetric, public-key, hash, compression, AEAD, S2K, signature-type, subpacket-type, revocation-reason and packet-tag identifiers, and for each registered curve, the listing shows the registered name (or Reserved, Private/Experimental, Unknown as applicable) together with the numeric value. Version octets are classified as old, current, draft or unknown per packet kind.",
 ["inputs"], "all values of every identifier octet, every context in which it appears",
 "Tests check a sample of the low values per table.",
 ["parse/values/symid.go", "parse/values/pubid.go", "parse/values/hashid.go", "parse/values/compid.go", "parse/values/aeadid.go", "parse/values/s2kid.go", "parse/values/sigid.go", "parse/values/subpacketid.go", "parse/values/tagid.go", "parse/values/ecc.go", "parse/values/version.go"],
 [("name tables", "parse/values/*.go")],
 ["values of identifier items"])

prop("C26", "Times are shown as the packet's instant, in UTC or local time as asked",
 "For every 32-bit time in a packet (signature, key, literal file time) the shown RFC 3339 text denotes exactly that instant, in UTC with the utc option and in the process's local zone otherwise; expiration end dates follow the same rule. A zero file time is shown as null.",
 ["inputs", "configurations"], "boundary and day-walk times x zones (offsets, half-hours, DST) x all time-bearing fields",
 "Tests always use UTC and present-day times.",
 ["parse/values/datetime.go", "parse/values/expire.go"],
 [("time formatting", "parse/values/datetime.go unixtime2RFC3339")],
 ["values/notes of time items"])

prop("C27", "Option contexts: settings read back as last set; debug implies the dumps",
 "For every sequence of option settings (by code or by case-insensitive name) each option reads back as last set, unknown names and codes change nothing, and debug turns on certification, integer, literal, marker and private dumps but neither armor-only nor UTC. A missing context behaves as one with no options.",
 ["histories", "configurations"], "all setting sequences up to the depth bound over all codes and names",
 "Tests set one option once.",
 ["parse/context/context.go", "parse/context/options.go"],
 [("option map", "parse/context/context.go Set/Get"), ("name lookup", "parse/context/options.go GetOptCode")],
 ["context.Context getters and String"])

prop("C28", "Interrupt: a download interrupted at any point ends with an error",
 "For every moment of a download by the hkp, github or fetch command (before the response, or after any number of bytes of any response body, on any key page) an interrupt signal, or cancelling the context given to the library call, ends the download: the command exits 1 with a message and no listing (with --debug the failure is printed and the exit status is 0). No further request is made and every response body is closed.",
 ["crash_points", "fault_sequences", "schedules"], "all interrupt points (before the response, after every body byte, on every page) x commands x flags",
 "No test interrupts anything; the client of the tests ignores the context.",
 ["facade/hkp.go", "facade/github.go", "facade/fetch.go", "hkp/hkp.go", "github/github.go"],
 [("context of the request", "hkp/hkp.go Fetch"), ("context of every page", "github/github.go getInPage"), ("signal handling", "facade/fetch.go")],
 ["command output and exit code, requests seen by the HTTP transport"])

prop("C29", "Errors say why: the cause of a failure can be recognised in the error",
 "For every input and fault the error returned by the library can be recognised (errors.Is / errors.As) by what went wrong. Data ending inside a packet is io.ErrUnexpectedEOF; an octet that begins no packet is the OpenPGP StructuralError; a body ending inside a field is io.EOF, io.ErrUnexpectedEOF or StructuralError; damaged compressed data is one of these or the decompressor's error. A failing reader's own error is kept, in both input modes; armor-only input without complete armor is ErrArmorText; no reader, or no packet reader, is ErrNullPointer (a missing Parser lists nothing, without error). Seeking to an unknown origin is ErrInvalidWhence, outside the buffer ErrInvalidOffset. For the GitHub and key server calls a transport or body failure keeps its own error, an HTTP status of 400 or more is fetch.ErrHTTPStatus, cancellation is context.Canceled, and a key that no page has, or that has no text, is ErrNoKey - and only that is; a failed or malformed answer of the key page or key server request is also ErrInvalidRequest.",
 ["inputs", "fault_sequences"], "every cut and garbage position of every sample packet in every header kind, every compressed-data damage, every reader fault position, all service faults on every page",
 "Tests look only at whether an error came back.",
 ["parse/parse.go", "parse/parser.go", "parse/tags/packets.go", "parse/reader/reader.go", "armtext/armtext.go", "github/github.go", "hkp/hkp.go", "ecode/ecode.go"],
 [("end of stream against damage", "parse/parse.go Parse"), ("armor search", "armtext/armtext.go Get"), ("page errors", "github/github.go GetKey")],
 ["error values returned by parse, reader, github and hkp"])

prop("C30", "Memory stays in proportion to the data present, whatever lengths it declares",
 "For every input, parsing allocates memory in proportion to the octets that are there, never to a length or count they declare: a packet, subpacket, field or integer declaring up to 2^32-1 octets with little or no data behind it costs no more than the data does. Data of any kind (long contents, many packets, many subpackets or list entries, long armored text or lines) costs at most a fixed amount per octet, for each level at which it is nested, with or without dumps; it does not grow with the square of the size. Printing a listing as text or JSON allocates in proportion to what is printed. Only compressed data may cost more, up to what its limited expansion needs.",
 ["inputs"], "all large declared lengths in every header and at every position of every sample packet; every kind of data at every power of two of size",
 "Tests parse small well-formed data and measure nothing.",
 ["parse/reader/reader.go", "parse/tags/pubkey.go", "parse/tags/seckey.go", "parse/tags/subParser.go", "parse/tags/packets.go", "parse/result/result.go", "armtext/armtext.go"],
 [("reading counted octets", "parse/reader/reader.go ReadBytes"), ("counted key material", "parse/tags/pubkey.go"), ("collecting and printing items", "parse/result/result.go"), ("collecting lines", "armtext/armtext.go Get")],
 ["bytes allocated by parse.New, Parser.Parse, Info.ToString and Info.JSON"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
