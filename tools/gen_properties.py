#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

ALLDEC = ["imap-codec/src/codec/decode.rs", "imap-codec/src/command.rs", "imap-codec/src/response.rs",
          "imap-codec/src/core.rs", "imap-codec/src/body.rs", "imap-codec/src/search.rs",
          "imap-codec/src/extensions/thread.rs", "imap-codec/src/fragmentizer.rs"]
prop("C01", "Decoding untrusted bytes never crashes, hangs or balloons",
 "For every byte string, decoding it as a greeting, command, authenticate data, response or IDLE done, and pushing it through the fragmentizer in any chunks, returns an ordinary result: it never panics, aborts, overflows a normal 2 MiB thread stack or loops forever. The memory and work spent stay proportional to the bytes received; they never depend on a literal length that was merely announced or on how deeply the input nests.",
 ["inputs", "configurations"], "all byte strings (random, grammar-shaped, mutated, deeply nested, huge announced literals, long repetitions), all five decoders and the fragmentizer, under default, all-extension, strict and all-feature builds",
 "Unit tests decode a few hundred hand-picked inputs of at most a few nesting levels; a crash needs one unlucky byte string (e.g. nested message/rfc822 bodies).",
 ALLDEC, [("recursion limits", "imap-codec/src/body.rs, search.rs, extensions/thread.rs"), ("no unsafe, no indexing on input", "imap-codec/src/codec/decode.rs"), ("complete/streaming nom parsers", "imap-codec/src/core.rs")],
 ["Decoder::decode", "Decoder::decode_static", "Fragmentizer::progress"])
prop("C02", "Client messages survive encode then decode",
 "Every command, SASL authenticate data line and IDLE done that can be built through the public constructors encodes to bytes that decode, without remainder, to an equal value. The only permitted difference is that sequence sets come back in normalised form when that quirk is enabled.",
 ["inputs", "configurations"], "all values of every command (all variants, options, string forms, literal modes, flags, dates, sequence sets, search trees, fetch items, extensions) reachable through validating constructors, all feature configurations; values that the grammar cannot express (empty item lists, non-canonical variants) are excluded",
 "The tests check ~200 fixed commands; the product of variants, string forms, literal modes and nesting is unbounded and a slip in one rarely used combination is invisible.",
 ["imap-codec/src/codec/encode.rs", "imap-codec/src/command.rs", "imap-codec/src/search.rs", "imap-codec/src/fetch.rs", "imap-codec/src/extensions"],
 [("per-type encoder", "imap-codec/src/codec/encode.rs"), ("command parsers", "imap-codec/src/command.rs")], ["Encoder::encode", "Decoder::decode"])
prop("C03", "Server messages survive encode then decode",
 "Every greeting and response (status with any code, data, fetch items including envelopes and body structures, continuation requests) that can be built through the public constructors encodes to bytes that decode, without remainder, to an equal value. The only permitted difference is that sequence sets come back in normalised form when that quirk is enabled.",
 ["inputs", "configurations"], "all values of every greeting/response variant reachable through validating constructors, body structures up to the documented recursion limit, all feature configurations; values that the grammar cannot express are excluded",
 "Body structures, envelopes and response codes are recursive products; tests hold a few dozen literals of them.",
 ["imap-codec/src/codec/encode.rs", "imap-codec/src/response.rs", "imap-codec/src/body.rs", "imap-codec/src/envelope.rs", "imap-codec/src/fetch.rs", "imap-codec/src/extensions"],
 [("per-type encoder", "imap-codec/src/codec/encode.rs"), ("response parsers", "imap-codec/src/response.rs")], ["Encoder::encode", "Decoder::decode"])
prop("C04", "The encoder emits the wire form the RFCs prescribe",
 "For every message the bytes produced by the encoder are exactly the wire form that RFC 3501 and the implemented extension RFCs give that message: right keywords, separators, parentheses, quoting and escaping, numbers, dates, base64 and literal announcements, nothing missing, added or reordered.",
 ["inputs", "configurations"], "all constructible messages as in C02/C03, all feature configurations",
 "A round trip test cannot see encoder and decoder drift together; known-answer tests cover single hand-written values.",
 ["imap-codec/src/codec/encode.rs", "imap-codec/src/extensions", "imap-types/src/utils.rs"],
 [("EncodeIntoContext impls", "imap-codec/src/codec/encode.rs"), ("escape_quoted", "imap-types/src/utils.rs"), ("Display impls of name types", "imap-types/src")], ["Encoded::dump", "Encoded iterator"])
prop("C05", "Every legal spelling of a message decodes to what it denotes",
 "Wire text that conforms to the grammar decodes to exactly the message it denotes, whatever legal spelling is used: any letter case of keywords, optional parentheses or parts present or absent, quoted strings, sync and non-sync literals. No field is lost, swapped, truncated or defaulted.",
 ["inputs", "configurations"], "all messages as in C02/C03 written in every spelling the grammar allows (random keyword case, alternative forms), all feature configurations",
 "Tests decode one spelling of a few messages; the grammar admits unboundedly many spellings of each.",
 ["imap-codec/src/command.rs", "imap-codec/src/response.rs", "imap-codec/src/core.rs", "imap-codec/src/fetch.rs", "imap-codec/src/body.rs", "imap-codec/src/datetime.rs", "imap-codec/src/extensions"],
 [("tag_no_case keyword parsers", "imap-codec/src"), ("string parsers", "imap-codec/src/core.rs")], ["Decoder::decode"])
prop("C06", "Whatever a decoder accepts is stable under re-encoding",
 "If a decoder accepts any input, valid or odd, then encoding the decoded message yields bytes that the same decoder accepts completely and decodes to the same message. So a proxy that decodes and re-encodes traffic never changes or corrupts it.",
 ["inputs", "configurations"], "all accepted byte strings, including lenient, mutated and quirky ones, all five codecs, default / all-extension / strict / all-feature configurations",
 "Accepted inputs that no constructor would produce (fallback codes, quirk paths, leading zeros, odd text) are never sampled by tests.",
 ["imap-codec/src/codec/decode.rs", "imap-codec/src/codec/encode.rs", "imap-codec/src/response.rs", "imap-codec/src/core.rs"],
 [("fallback Other variants", "imap-codec/src/response.rs"), ("unvalidated constructors after parsing", "imap-codec/src")], ["Decoder::decode", "Encoder::encode"])
prop("C07", "Malformed messages are rejected, not guessed",
 "Input that violates the grammar is never decoded successfully: numbers out of range or zero where non-zero is required, wrong or missing separators and parentheses, unknown command names, invalid dates, bad base64, forbidden characters, junk before the line end, or a line end other than CRLF (when the relaxed quirk is off). A malformed response code is at most kept verbatim as an unknown code.",
 ["inputs", "configurations"], "valid wire messages with one grammar-breaking edit at any position of each listed kind, all five codecs, strict and default configurations",
 "Tests reject a few dozen inputs; a parser that became lenient in one production still passes all of them.",
 ["imap-codec/src/core.rs", "imap-codec/src/command.rs", "imap-codec/src/response.rs", "imap-codec/src/datetime.rs", "imap-codec/src/sequence.rs", "imap-codec/src/auth.rs"],
 [("number/nz_number/map_res", "imap-codec/src/core.rs"), ("crlf", "imap-codec/src/core.rs"), ("date parsers", "imap-codec/src/datetime.rs")], ["Decoder::decode"])
prop("C08", "Streaming: partial input is incomplete, extra input is left alone",
 "Decoding any proper prefix of a valid message says that more bytes are needed (incomplete, or a literal was found) and never succeeds or fails; decoding the message followed by any other bytes gives the same message and returns exactly those other bytes as remainder.",
 ["inputs", "histories"], "all valid messages of all five codecs, all split points, all trailing bytes including further messages",
 "Tests check splits of a handful of messages; split points times grammar productions are unbounded (streaming vs complete parser choice at each).",
 ["imap-codec/src/codec/decode.rs", "imap-codec/src/core.rs", "imap-codec/src/command.rs", "imap-codec/src/response.rs"],
 [("nom streaming combinators", "imap-codec/src"), ("error mapping", "imap-codec/src/codec/decode.rs")], ["Decoder::decode"])
prop("C09", "Literal announcements are reported exactly at literal boundaries",
 "While a command or response is received, the decoder reports a found literal exactly when the input so far ends right after a literal announcement whose data has not arrived, with the announced length and, for commands, the right tag and synchronising mode; at every other split it reports incomplete.",
 ["inputs", "histories"], "all messages with any number and kind of literals (sync, non-sync, literal8, empty, large), all split points",
 "Tests cover a dozen single-literal inputs; the report depends on split point, literal kind, position and tag.",
 ["imap-codec/src/codec/decode.rs", "imap-codec/src/core.rs", "imap-codec/src/extensions/binary.rs", "imap-codec/src/command.rs"],
 [("literal parser error with announcement", "imap-codec/src/core.rs"), ("tag attachment", "imap-codec/src/command.rs")], ["CommandDecodeError::LiteralFound", "ResponseDecodeError::LiteralFound"])
prop("C10", "Encoded fragments match the literal handshake",
 "The fragments of an encoded message, concatenated, are the whole message; each literal fragment is immediately preceded by a line that ends by announcing exactly that literal's length and mode and carries exactly the literal's bytes; no line fragment contains literal data and the message ends with a CRLF line. At any point of the iteration, what remains (also in a copy of it) is exactly what was not taken yet.",
 ["inputs", "histories"], "all messages with any number and kind of literals, both modes, all codecs",
 "Tests look at five fixed messages; a client that follows fragments deadlocks if one boundary or mode is wrong.",
 ["imap-codec/src/codec/encode.rs"], [("EncodeContext push_line/push_literal", "imap-codec/src/codec/encode.rs"), ("Encoded iterator and dump", "imap-codec/src/codec/encode.rs")], ["Encoded iterator", "Encoded::dump"],
 [("fragments", "queue of line and literal fragments", "imap-codec/src/codec/encode.rs")])
prop("C11", "Fragmentizer framing is correct for every chunking",
 "However a byte stream is cut into chunks, the fragmentizer yields the same fragments and the same messages: lines end at a line feed, a line whose end announces a literal is followed by a literal fragment of exactly that many bytes, a message ends with the first line without announcement, and the fragments' bytes concatenate to the stream with nothing lost, duplicated or reordered.",
 ["inputs", "histories"], "all byte streams (well formed and hostile, CRLF/LF/CR mixes, announcements with plus, overflow, stray braces, several messages) and all ways to chunk and poll them",
 "Tests feed a few streams in a few chunkings; correctness needs every cut position including inside CRLF and announcements.",
 ["imap-codec/src/fragmentizer.rs"], [("Parser line/literal state machine", "imap-codec/src/fragmentizer.rs")],
 ["Fragmentizer::progress", "Fragmentizer::fragment_bytes", "Fragmentizer::message_bytes", "Fragmentizer::is_message_complete"],
 [("unparsed_buffer", "bytes not yet cut into fragments", "imap-codec/src/fragmentizer.rs"), ("message_buffer", "bytes of the current message", "imap-codec/src/fragmentizer.rs")])
prop("C12", "Fragmentizer limits, poisoning, skipping and recovery",
 "With a maximum message size, a message is reported as too long exactly when it has more bytes than the maximum, and never more than the maximum is buffered for it; a too long, poisoned or skipped message is never decoded. The next message is framed and decoded normally, and a message within the limit decodes to exactly what the decoder gives for its bytes, reporting decoding failure or unused remainder otherwise.",
 ["inputs", "histories", "fault_sequences"], "all streams of messages around the size limit, all chunkings, all interleavings of poison/skip/decode calls between fragments, all four message codecs",
 "Tests use a few sizes and one call order each; the outcomes depend on the history of calls and cut points.",
 ["imap-codec/src/fragmentizer.rs"], [("max_message_size checks", "imap-codec/src/fragmentizer.rs"), ("poison_message/skip_message/decode_message", "imap-codec/src/fragmentizer.rs")],
 ["Fragmentizer::is_max_message_size_exceeded", "Fragmentizer::decode_message", "Fragmentizer::decode_tag", "Fragmentizer::is_message_poisoned"],
 [("message_poisoned", "current message must not be decoded", "imap-codec/src/fragmentizer.rs"), ("max_message_size", "limit", "imap-codec/src/fragmentizer.rs")])
prop("C13", "End to end: framing and decoding of encoded traffic agree",
 "If one side encodes any sequence of commands, or of data responses, and the other side cuts the resulting byte stream with the fragmentizer, in any chunks, and decodes each message, it obtains exactly the original sequence of messages; the tag available early for each command is that command's tag.",
 ["inputs", "histories"], "all sequences of commands / responses (without text ending in something shaped like a literal announcement), all chunkings",
 "The encoder, fragmentizer and decoder are tested apart; only composed histories show desynchronisation.",
 ["imap-codec/src/fragmentizer.rs", "imap-codec/src/codec/encode.rs", "imap-codec/src/codec/decode.rs"],
 [("shared literal announcement syntax", "imap-codec/src/fragmentizer.rs and core.rs")], ["Fragmentizer::decode_message", "Fragmentizer::decode_tag"])
prop("C14", "Validated types accept exactly their grammar on every path",
 "Atom, extended atom, tag, text, quoted string and char, literal, charset, list-mailbox string, other-mailbox and non-empty vectors can be created from a value exactly when it satisfies the RFC character-class rule for the type, and every way in (validation function, conversions from str, String, bytes, Vec, Cow, deserialisation) gives the same verdict and keeps the content unchanged; the constructors that skip validation keep the content too and, in builds with debug assertions, panic exactly on illegal values.",
 ["inputs"], "all strings over all byte values and lengths (exhaustive for one and two bytes, sampled beyond), every conversion",
 "Tests try a few characters per type and conversion; a wrong class for one byte on one path goes unnoticed and enables injection.",
 ["imap-types/src/core.rs", "imap-types/src/mailbox.rs", "imap-types/src/utils.rs"],
 [("validate functions", "imap-types/src/core.rs"), ("indicators", "imap-types/src/utils.rs"), ("impl_try_from macros", "imap-types/src/core.rs")], ["validate", "TryFrom impls", "serde Deserialize"])
prop("C15", "No constructible value can inject extra lines or commands",
 "Whatever content is given to the validating constructors, the encoded message is framed by a receiver as exactly one message: outside literal data it contains no NUL and no CR or LF except the CRLF that ends each line, and hostile content either is rejected at construction or ends up inside a quoted string or literal that the receiver reads back unchanged. (Human-readable status text that itself reads as a literal announcement or, without a response code, starts with a bracket cannot be expressed unambiguously in the protocol; it still never adds a line.)",
 ["inputs"], "all user-supplied strings (with CR, LF, NUL, quotes, backslashes, braces, parentheses, non-ASCII) in every string position of every message kind; types without validating constructor (unknown response codes, referral URLs, quoted UTF-8) are excluded",
 "Injection needs one unescaped byte in one position; tests use benign strings.",
 ["imap-types/src/core.rs", "imap-types/src/utils.rs", "imap-codec/src/codec/encode.rs", "imap-types/src/response.rs"],
 [("validation", "imap-types/src/core.rs"), ("escape_quoted", "imap-types/src/utils.rs"), ("quoted/literal encoding", "imap-codec/src/codec/encode.rs")], ["Encoder::encode"])
prop("C16", "String conversions keep content and pick the shortest legal form",
 "Converting a value to a string-like protocol type keeps the bytes unchanged and picks atom when allowed, else quoted, else literal, or fails only when no form can carry them; a mailbox name is the special INBOX exactly when it equals INBOX ignoring ASCII case, whatever form it arrived in, and any other name keeps its exact case.",
 ["inputs"], "all byte strings through all conversions to astring, string, nstring, charset, list mailbox and mailbox",
 "Which form is chosen depends on every byte of the input and on the conversion used; tests pick a few.",
 ["imap-types/src/core.rs", "imap-types/src/mailbox.rs", "imap-codec/src/mailbox.rs"],
 [("TryFrom cascades", "imap-types/src/core.rs"), ("Mailbox::from(AString)", "imap-types/src/mailbox.rs")], ["TryFrom/From impls", "AsRef"])
prop("C17", "Sequence set normalisation and iteration keep the denoted set",
 "Normalising a sequence set never changes which existing messages it selects, for any highest number, and yields sorted, non-overlapping, non-adjacent elements, idempotently; iterating yields exactly the selected numbers in ascending order without duplicates, and the naive iteration yields every element's numbers in order with duplicates.",
 ["inputs"], "all sequence sets (singles, ranges in either direction, overlaps, adjacency, star, extreme numbers) and all highest numbers",
 "Tests normalise about ten sets; merging bugs depend on the overlap pattern and on the extremes of the number range.",
 ["imap-types/src/sequence.rs", "imap-codec/src/codec/encode.rs"], [("SequenceSet::normalize, merge_ranges", "imap-types/src/sequence.rs"), ("SequenceSet::iter, cleanup, simplify", "imap-types/src/sequence.rs")],
 ["SequenceSet::normalize", "SequenceSet::iter", "SequenceSet::iter_naive", "encoded sequence sets"])
prop("C18", "Sequence constructors denote what their argument says",
 "Building a sequence, sequence set or number from an integer, slice, vector, range of any kind or string gives exactly the numbers the argument denotes (with * as the open end), and fails for zero, negative, too large, empty or malformed arguments.",
 ["inputs"], "all integers of all integer types (edges and samples), all five range kinds, all strings; inclusive ranges whose end lies before their start are not judged; the all-ones number given as a non-zero integer stands for * by design and is excluded",
 "Conversions exist for ten integer types times several range kinds; tests instantiate a few with a few numbers.",
 ["imap-types/src/sequence.rs"], [("TryFrom/From/FromStr impls", "imap-types/src/sequence.rs")], ["SequenceSet::try_from", "Sequence::try_from", "SeqOrUid::try_from"])
prop("C19", "Secrets never show up in debug output of release builds",
 "In a build without debug assertions the debug formatting (plain, alternate, hexadecimal) of commands, authenticate data, the secret wrapper and the errors of the fragmentizer and decoders does not depend on the content of a password, initial response, SASL payload or retained message bytes: two secrets of the same length and form print alike. Nor does anything the library writes to its log, at any level. Encoding still sends the secret, declassifying still returns it, comparison still tells secrets apart.",
 ["inputs", "configurations"], "all secrets (atoms, quoted, literals, arbitrary bytes) in LOGIN, AUTHENTICATE and authenticate data, both debug formats, release configuration",
 "The redaction only exists in release builds, while the tests run with debug assertions.",
 ["imap-types/src/secret.rs", "imap-types/src/command.rs", "imap-types/src/auth.rs"], [("Secret Debug impl", "imap-types/src/secret.rs")], ["Debug formatting of Command, AuthenticateData, Secret"])
prop("C20", "Detached copies equal the borrowed original",
 "Turning any decoded message that borrows from the input into an owned one (to-static, into-static, static decoding) gives an equal value that encodes to the same bytes, stays intact after the input buffer is gone or overwritten, and static decoding gives the same result, remainder and error as borrowed decoding for every input.",
 ["inputs", "histories"], "all inputs of all five codecs (valid, partial, malformed), buffers overwritten after conversion",
 "Tests compare a few; a missed field or error mapping shows only for particular variants.",
 ["imap-codec/src/codec/decode.rs", "imap-types/src/lib.rs", "imap-types/src/datetime.rs"], [("ToStatic derives and manual impls", "imap-types/src"), ("decode_static", "imap-codec/src/codec/decode.rs")], ["ToStatic::to_static", "IntoStatic::into_static", "Decoder::decode_static"])
prop("C21", "Serialisation round-trips and never bypasses validation",
 "With the serde feature, every message serialises and deserialises back to an equal value, and no serialised document can be deserialised into a message that the validating constructors would refuse: invalid atoms, tags, texts, quoted strings, literals, mailboxes, dates, empty lists, ambiguous continuation requests, or fallback values that hold a reserved name, are rejected.",
 ["inputs"], "all messages as in C02/C03 via a self-describing format, and all single corruptions of their string, number and list leaves; types without validating constructor (unknown response codes, referral URLs, quoted UTF-8) are excluded",
 "Tests deserialise about twenty small documents; each type's validation hook is a separate attribute that can be lost.",
 ["imap-types/src/core.rs", "imap-types/src/mailbox.rs", "imap-types/src/datetime.rs", "imap-types/src/response.rs", "imap-types/src/command.rs"],
 [("serde try_from attributes", "imap-types/src"), ("shadow structs", "imap-types/src/response.rs")], ["Serialize/Deserialize"])
prop("C22", "Generated tags are valid and never repeat",
 "Tags produced by any number of tag generators, created and used from any number of threads, are all valid IMAP tags and pairwise different within the process (already in their generator and counter parts), and tags of one generator follow its own counter in order. In builds without debug assertions every tag also carries a fresh random part of eight letters and digits.",
 ["schedules", "histories"], "all interleavings of generator creation and generation over threads, debug and release builds",
 "One test generates tags sequentially; uniqueness is about concurrent histories.",
 ["imap-types/src/core.rs"], [("global atomic counter", "imap-types/src/core.rs")], ["TagGenerator::new", "TagGenerator::generate"],
 [("GLOBAL_TAG_GENERATOR_COUNT", "id of the next generator", "imap-types/src/core.rs")])
prop("C23", "Quirk options rectify exactly the documented deviations",
 "Each quirk option accepts exactly its documented deviation and decodes it to the documented value, leaves the decoding of conforming input unchanged, and when the option is off the deviating input is rejected.",
 ["configurations", "inputs"], "every quirk, on and off, applied to generated messages containing the deviation at its documented place and to conforming messages",
 "Tests run one feature set and one input per quirk; on/off behaviour over generated context is untested.",
 ["imap-codec/src/core.rs", "imap-codec/src/response.rs", "imap-codec/src/mailbox.rs", "imap-codec/src/envelope.rs", "imap-codec/src/body.rs", "imap-codec/src/extensions/id.rs", "imap-codec/src/extensions/quota.rs", "imap-codec/src/codec/encode.rs"],
 [("cfg(feature = quirk_*) branches", "imap-codec/src")], ["Decoder::decode"])
prop("C24", "Names map to one value and back, ignoring case",
 "For capabilities, authentication mechanisms, flags, mailbox attributes, quota resources, enable capabilities, compression, sort and thread algorithms: every known name in any letter case becomes the dedicated variant, printing a variant and reading it back gives the same variant, and an unknown name is kept verbatim as the fallback variant and never mistaken for a known one.",
 ["inputs"], "all known names in random letter case, all unknown atoms including near misses of known names (prefixes, suffixes, embedded), all conversion paths",
 "Registries are long hand-written tables in two directions; tests cover a few entries and no near misses.",
 ["imap-types/src/response.rs", "imap-types/src/auth.rs", "imap-types/src/flag.rs", "imap-types/src/extensions"],
 [("From<Atom> and Display tables", "imap-types/src")], ["From<Atom>", "TryFrom<&str>", "Display", "AsRef<str>"])
prop("C25", "Dates and times keep their exact meaning",
 "Every date and date-time the types accept encodes to its RFC text and decodes back to the same calendar date, time and zone offset; conversions accept exactly years 0 to 9999 with whole seconds and whole-minute offsets; text naming an impossible date or time, or a zone of 24 hours or more, is rejected.",
 ["inputs"], "all calendar days, times, offsets (exhaustive over days of leap and ordinary years and over zone minutes, sampled otherwise), all malformed variants; zones whose minutes exceed 59 are not judged, and -0000 reads as +0000",
 "Tests use a few dates; leap days, month ends, negative offsets and extreme years are a product.",
 ["imap-types/src/datetime.rs", "imap-codec/src/datetime.rs", "imap-codec/src/codec/encode.rs"],
 [("DateTime::validate", "imap-types/src/datetime.rs"), ("date parsers", "imap-codec/src/datetime.rs")], ["DateTime::try_from", "NaiveDate::try_from", "Decoder::decode", "Encoder::encode"])
prop("C26", "Convenience constructors and accessors build exactly what they name",
 "Every convenience constructor of commands, status responses, greetings, data, continuation requests, response codes and helper types builds exactly the message its name and arguments say, each argument in its place and nothing else set; accessors return the parts, command names match the wire keyword, fetch macros expand to the items of RFC 3501; arguments are refused exactly when illegal: zero numbers, empty lists, invalid text, or a continuation text that would be read as a code or as base64.",
 ["inputs"], "all argument values of all convenience constructors, both feature configurations",
 "Constructors are called with one or two benign arguments in tests; swapped arguments of the same type or a wrong default go unnoticed.",
 ["imap-types/src/command.rs", "imap-types/src/response.rs", "imap-types/src/fetch.rs", "imap-types/src/search.rs", "imap-types/src/auth.rs", "imap-types/src/extensions"],
 [("CommandBody constructors", "imap-types/src/command.rs"), ("Status/Greeting/Data/Code constructors", "imap-types/src/response.rs"), ("CommandContinuationRequestBasic::new", "imap-types/src/response.rs")], ["CommandBody::*", "Status::*", "Data::*", "Code::*", "CommandContinuationRequest::*"])
prop("C27", "Generated values are legal and survive the codec",
 "With the arbitrary features, every value that the Arbitrary implementations of messages and their parts produce from any byte string is legal (every atom, tag, text, quoted string, literal, mailbox, list, date and fallback name inside it could have been built by the validating constructors), encodes without error, and decodes back to itself; producing a value never panics.",
 ["inputs", "configurations"], "all byte strings, messages and parts of messages, with and without the simplified mode",
 "The implementations build values around the validating constructors, no test looks at what they produce, and the fuzz targets that rely on them are not run by the tests.",
 ["imap-types/src/arbitrary.rs", "imap-types/src/core.rs", "imap-types/src/response.rs", "imap-types/src/datetime.rs"],
 [("implement_tryfrom and manual Arbitrary impls", "imap-types/src/arbitrary.rs"), ("Arbitrary derives", "imap-types/src")], ["Arbitrary::arbitrary"])
prop("C28", "Printed and escaped forms are the protocol text",
 "What the types print (Display of atoms, texts, flags, mailbox attributes, capabilities, mechanisms, resources, algorithms, macros, threads) is exactly the text the encoder sends for them; escaping and unescaping quoted text are inverse to each other for every string; the byte-string escape shows every byte string as printable text that can be told apart from every other; the exported character classes are those of RFC 3501 for every byte.",
 ["inputs"], "all names (known in any case, unknown, near misses), all threads, capability and flag lists, all strings and byte strings, all 256 bytes",
 "Display and the encoder are separate hand-written tables; tests print a handful of values and escape a handful of strings.",
 ["imap-types/src/utils.rs", "imap-types/src/core.rs", "imap-types/src/flag.rs", "imap-types/src/response.rs", "imap-types/src/extensions/thread.rs", "imap-codec/src/codec/encode.rs"],
 [("Display impls", "imap-types/src"), ("escape_byte_string, escape_quoted, unescape_quoted, indicators", "imap-types/src/utils.rs")], ["Display::fmt", "escape_byte_string", "escape_quoted", "unescape_quoted", "indicators"])
prop("C29", "Comparing, hashing and ordering agree with content",
 "Two messages are equal exactly when all their parts are equal (times as instants), symmetrically; equal messages hash alike and are sent alike, wherever their bytes are stored. Numbers and * order with * above all numbers; one sequence is less than another exactly when all its numbers lie below, overlapping sequences have no order; atoms order like their text.",
 ["inputs"], "all pairs of messages (copies, re-decoded, slightly changed, unrelated), all pairs of sequences and sequence ends",
 "Several comparisons and hashes are written by hand (secrets, sequences); tests compare a few values with themselves.",
 ["imap-types/src/secret.rs", "imap-types/src/sequence.rs", "imap-types/src/core.rs", "imap-types/src/mailbox.rs"],
 [("PartialOrd for Sequence, Ord for SeqOrUid", "imap-types/src/sequence.rs"), ("PartialEq for Secret", "imap-types/src/secret.rs")], ["PartialEq::eq", "Hash::hash", "Ord::cmp", "PartialOrd::partial_cmp"])
prop("C30", "Refusals name their cause",
 "When a validating constructor refuses its argument, the error says why, correctly: empty, the first illegal byte and its position, a reserved name, too few elements, a year, fraction or zone offset out of range; command constructors with several arguments blame the argument that is illegal (the first one when both are); an illegal continuation text and an ambiguous one are told apart.",
 ["inputs"], "all contents of all validated types, all pairs of legal and illegal arguments of LOGIN, RENAME, LIST, LSUB, APPEND and COPY",
 "Tests check that an error occurs, rarely which; a wrong position or a swapped argument misleads every caller that reports it.",
 ["imap-types/src/error.rs", "imap-types/src/core.rs", "imap-types/src/mailbox.rs", "imap-types/src/command.rs", "imap-types/src/datetime.rs", "imap-types/src/response.rs"],
 [("ValidationErrorKind", "imap-types/src/error.rs"), ("LoginError, RenameError, ListError, AppendError, CopyError", "imap-types/src/command.rs")], ["TryFrom", "validate", "CommandBody::login", "CommandBody::rename"])
prop("C31", "Sessions never deadlock or lose step",
 "When a client sends commands fragment by fragment, holding back each synchronising literal until it is asked for, and a server that detects announcements with the decoder or the fragmentizer answers each of them exactly once (continuation request or refusal), both sides stay in step under every delivery and schedule: the session never gets stuck; commands, AUTHENTICATE answers, IDLE ends, greeting and responses arrive exactly once, in order and unchanged; a refused, poisoned, too long or malformed command is reported under its own tag, and no literal byte of it is ever taken for a command.",
 ["inputs", "schedules"], "all command and response sequences, delivery chunkings, interleavings of both sides, refusals, limits and malformed commands",
 "A session composes encoder, decoder, framing and handshake over many steps; tests look at single messages, never at two peers whose progress depends on each other.",
 ["imap-codec/src/codec/encode.rs", "imap-codec/src/codec/decode.rs", "imap-codec/src/fragmentizer.rs", "imap-codec/src/core.rs"],
 [("Fragment, Encoded", "imap-codec/src/codec/encode.rs"), ("CommandDecodeError::LiteralFound", "imap-codec/src/codec/decode.rs"), ("Fragmentizer", "imap-codec/src/fragmentizer.rs")], ["CommandCodec", "ResponseCodec", "AuthenticateDataCodec", "IdleDoneCodec", "GreetingCodec", "Fragmentizer::skip_message", "Fragmentizer::poison_message"])
with open(OUT, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
