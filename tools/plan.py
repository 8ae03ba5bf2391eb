"""What each check runs: configurations (feature sets and profiles of the code under test) and evidence texts."""
EXT = "ext"
CONFIGS = {
    # everything on, debug assertions and overflow checks on
    "full": {"features": ["ext", "quirk", "serde", "taggen"]},
    # the crate's default features
    "default": {"features": ["quirk"]},
    # all extensions, no quirk
    "strict": {"features": ["ext"]},
    # no feature at all
    "bare": {"features": []},
    # all extensions, all quirks including the opt-in ones
    "relaxed": {"features": ["ext", "quirk", "relaxed", "serde", "taggen"]},
    # everything on, as shipped: no debug assertions, no overflow checks
    "rel": {"features": ["ext", "quirk", "serde", "taggen"], "release": True},
    # with the Arbitrary implementations, and in their simplified form
    "arb": {"features": ["ext", "quirk", "arb"]},
    "arbs": {"features": ["ext", "quirk", "arb_simplified"]},
    # thorough tier: address sanitizer
    "asan": {"features": ["ext", "quirk", "serde", "taggen"], "toolchain": ["+nightly"], "env": {"RUSTFLAGS": "-Zsanitizer=address"},
             "target_args": ["--target", "x86_64-unknown-linux-gnu"], "subdir": ["x86_64-unknown-linux-gnu"], "no_mem_limit": True,
             "run_env": {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1"}, "thorough_only": True},
}
# half-on, half-off combinations of the quirks: every pair of quirks is told apart by one of them
QUIRKS = ["missing_text", "rectify_numbers", "excessive_space_quota_resource", "trailing_space_status", "trailing_space_capability", "trailing_space_id",
          "trailing_space_search", "spaces_between_addresses", "empty_continue_req", "body_fld_enc_nil_to_empty", "always_normalize_sequence_sets", "crlf_relaxed", "id_empty_to_nil"]
for _b in range(4):
    CONFIGS[f"q{_b}"] = {"features": ["ext"] + ["q_" + q for i, q in enumerate(QUIRKS, 1) if i >> _b & 1]}
CO = ("Messages come from a co-generator that builds a protocol value and, independently of the code under test, its wire form written from the RFC grammar; "
      "every message kind, variant, optional field, extension, string form and extreme number is drawn. ")
D = "A case counts as distinct by the hash of its wire bytes. "


def codec(**kw):
    return {c: ({"cases": n} if n else None) for c, n in kw.items()}


PLAN = {
    "C01": {"configs": codec(full=0, default=0, strict=0, relaxed=0, rel=0), "thorough_configs": codec(full=0, default=0, strict=0, relaxed=0, rel=0, asan=0),
            "must_see": ["nesting-depths", "flat-sizes", "distinct-items", "framed-messages", "shape:announced-literal", "fragmentizer-bulk", "nested-and-long"],
            "technique": "runtime monitoring: panic, stack, allocation and CPU-time monitors (AddressSanitizer in the thorough tier) over hostile byte strings",
            "note": "Trusts the counting allocator, the thread CPU clock and generous linear bounds (constants in p_robust.rs).",
            "rule": "Hostile byte strings (random, grammar-shaped, mutated messages, nesting to great depth, long repetitions, long lists whose items all differ, huge announced literals) go to all five decoders on a 2 MiB stack and to the fragmentizer; monitors: panics and aborts, overflow and debug assertions, peak bytes allocated and CPU time against linear bounds in the input length, and CPU time of a message thirty times as long relative to that of the shorter one. Distinct: hash of the input bytes."},
    "C02": {"configs": codec(full=0, default=1500000, strict=1200000), "thorough_configs": codec(full=0, default=0, strict=0, relaxed=0, rel=0, bare=0), "must_see": ["nested-to-the-limit", "large-part", "part-repeated", "part-resembling"], "rule": CO + "Oracle: decode(encode(m)) equals m (sequence sets normalised where that quirk is on) with an empty remainder. " + D},
    "C03": {"configs": codec(full=0, default=1500000, strict=1200000), "thorough_configs": codec(full=0, default=0, strict=0, relaxed=0, rel=0, bare=0), "must_see": ["nested-to-the-limit", "large-part", "part-repeated", "part-resembling"], "rule": CO + "Oracle: decode(encode(m)) equals m with an empty remainder. " + D},
    "C04": {"configs": codec(full=0, default=1500000, strict=1200000), "thorough_configs": codec(full=0, default=0, strict=0, relaxed=0, rel=0, bare=0), "must_see": ["nested-to-the-limit", "large-part", "part-repeated", "part-resembling"], "rule": CO + "Oracle: the encoder's bytes equal the generator's canonical wire form. " + D},
    "C05": {"configs": codec(full=0, default=1500000, strict=1200000, bare=500000), "thorough_configs": codec(full=0, default=0, strict=0, relaxed=0, rel=0, bare=0), "must_see": ["nested-to-the-limit", "large-part", "part-repeated", "part-resembling"], "rule": CO + "The wire form is respelled (letter case, quoted/literal/atom forms, NIL case, leading zeros, optional forms); oracle: it decodes to the value with empty remainder. " + D},
    "C06": {"configs": codec(full=0, default=500000, strict=1500000), "thorough_configs": codec(full=0, default=0, strict=0, relaxed=0, bare=0), "must_see": ["input-accepted", "accepted-not-canonical", "contents-compared"], "rule": CO + "Wire bytes are then mutated with byte, token and dictionary edits; oracle for accepted inputs: encode, decode again gives the same message (reference normalisation of sequence sets), a second encoding gives the same bytes, and, in the build without quirks, the words and strings of the re-encoding are those of the input in the same order. Distinct: hash of accepted bytes."},
    "C07": {"configs": codec(full=0, strict=1200000, default=1200000), "thorough_configs": codec(full=0, strict=0, default=0, relaxed=0), "must_see": ["keyword", "non-zero number", "64 bit number", "sequence set", "date", "date-time", "separator", "opening parenthesis", "closing parenthesis", "base64", "quoted string", "unterminated quoted string", "atom", "literal announcement", "inside of a list", "address list", "parameter list", "disposition", "languages", "namespaces", "ID parameters", "delimiter", "section", "binary section", "response text", "response-codes-kept", "UID set", "tag", "line end", "written-by-hand", "codes-written-by-hand", "what-only-quirks-accept", "forbidden byte", "junk before the line end", "NUL in literal"], "rule": CO + "Each valid message is broken at a known grammar position (keyword, number, date, separator, parenthesis, list that may not be empty, address list, parameter list, disposition, languages, namespaces, section, response text, quoted string, atom, tag, literal announcement, base64, line end, forbidden byte), and about 1 350 malformed lines written by hand from the grammars are tried in changing letter case and context; oracle: the decoder does not accept it, or keeps a malformed response code verbatim as an unknown one. Distinct: hash of the broken bytes."},
    "C08": {"configs": codec(full=0, default=30000, relaxed=30000), "thorough_configs": codec(full=0, default=0, relaxed=0, strict=0), "must_see": ["prefixes", "extensions"], "rule": CO + "Every split point (up to 600 bytes; sampled beyond) of every message; oracle: a proper prefix is reported incomplete, and bytes after the message are returned untouched as remainder. Distinct: hash of the message."},
    "C09": {"configs": codec(full=0, default=30000), "thorough_configs": codec(full=0, default=0, strict=0, relaxed=0), "must_see": ["literal-boundaries", "other-splits", "other-lengths"], "rule": CO + "Every split point; oracle: literal-found with exact tag, length and mode exactly at the ends of announcements, incomplete at every other split. Distinct: hash of the message."},
    "C10": {"configs": codec(full=0, default=1000000), "thorough_configs": codec(full=0, default=0, strict=0, relaxed=0, rel=0), "must_see": ["literal-fragments", "copies"], "rule": CO + "Oracle over the fragment sequence: concatenation equals dump, each literal follows its own announcement, the literals are exactly the message's, last line ends with CRLF; after partial iteration the rest, its dump, and a copy of it are what was not taken yet. Distinct and non-trivial: messages with at least one literal."},
    "C11": {"configs": codec(full=0, rel=0), "must_see": ["announcing-lines", "crlf-lines", "lf-lines", "literals", "need-more", "enumerated-chunkings"],
            "technique": "runtime monitoring: online checker comparing every fragmentizer step with a reference framing automaton",
            "rule": "Streams of lines, announcements and literals, well formed and hostile, fed in random chunks and polled at random moments (all chunkings of short streams enumerated); oracle: an independent framing of the whole stream, compared after every call (fragments, message bytes, completeness, conservation of bytes). Distinct: hash of stream and chunking."},
    "C12": {"configs": codec(full=0, default=0), "must_see": ["poison", "skip", "decode-too-long", "decode-poisoned", "decode-ok", "decode-remainder", "decode-failure", "exceeded-states", "memory-runs", "growth-runs"],
            "technique": "runtime monitoring: online checker over random call histories against a reference state machine, with allocation monitor",
            "rule": "Random histories of enqueue, progress, poison, skip, decode and tag calls over message streams around the size limit; oracle: a reference state machine and the plain decoder applied to the message's bytes; the counting allocator bounds what is buffered. Distinct: hash of stream, limit and call history."},
    "C13": {"configs": codec(full=0, default=0), "must_see": ["messages-delivered", "early-tags"],
            "technique": "runtime monitoring: exactly-once, in-order delivery checker over composed encoder, fragmentizer and decoder runs",
            "rule": CO + "Sequences of encoded messages are fed in random chunks; oracle: delivered messages equal the sent sequence. Distinct: hash of the stream."},
    "C14": {"configs": codec(full=0, default=0), "must_see": ["atom-valid", "atom-invalid", "exhaustive-up-to-two-bytes", "exhaustive-chars", "vectors", "unvalidated"],
            "rule": "Every string of one or two bytes, every byte at three places of strings of 20 lengths, every char, and random strings, through every conversion, validation function and deserialiser of every validated type; oracle: character-class predicates written from the RFC grammar. Distinct: hash of the content."},
    "C15": {"configs": codec(full=0, default=0), "must_see": ["enumerated", "refused", "login user", "list wildcard", "tag", "status text", "envelope", "body extension data", "namespace", "metadata"],
            "rule": "Hostile contents (every byte at several places enumerated, attack strings, random) given to the validating constructors of 66 string positions of commands and responses; oracle: no control byte outside literals, a reference framing sees exactly one message, and the decoder reads back the same value. Distinct: hash of the encoded message."},
    "C16": {"configs": codec(full=0, default=0), "must_see": ["as-atom", "as-quoted", "as-literal", "refused", "inbox", "names-on-the-wire"],
            "rule": "Exhaustive one- and two-byte contents, INBOX in all cases and near misses, and random contents through every conversion to string-like types, and on the wire in every string form; oracle: RFC character-class predicates. Distinct: hash of the content."},
    "C17": {"configs": codec(full=0, rel=0), "must_see": ["enumerated", "sets-with-merged-elements", "large-sets-with-merged-elements", "highest-numbers", "iterated-to-the-end"],
            "rule": "All sets of up to three elements over a small universe, and random sets with overlaps, adjacency, star and extreme numbers; oracle: interval sets of selected numbers for many highest numbers. Distinct: hash of the set."},
    "C18": {"configs": codec(full=0, rel=0), "must_see": ["enumerated", "texts-legal", "texts-illegal", "integers", "slices", "ranges", "nonzero-ranges", "long-slices"],
            "rule": "Every conversion of every integer type, range kind, slice, vector and text, over edges, small enumerations and random draws; oracle: the numbers the argument denotes. Distinct: hash of the argument."},
    "C19": {"configs": codec(rel=0), "must_see": ["login", "authenticate", "authenticate-data", "secret-wrapper", "error-remainder", "error-too-long", "error-poisoned", "decode-errors", "logs-compared", "recorder-works"],
            "technique": "runtime monitoring: noninterference monitor comparing debug output and log output under two secrets, in a release build",
            "rule": "Pairs of random secrets of the same length and form, in every place a secret can be, constructed and decoded; oracle: nine debug formats are identical for both secrets and do not contain the secret, and so is everything logged while each is encoded, framed and decoded (also cut, spoiled, too long, skipped, poisoned), while encoding, declassifying and comparing still work. Distinct: hash of the secret."},
    "C20": {"configs": codec(full=0, default=0), "thorough_configs": codec(full=0, default=0, rel=0, asan=0), "must_see": ["accepted", "incomplete", "literal", "failed", "other-lengths"],
            "technique": "runtime monitoring: detached values compared after the input buffer was overwritten and freed (AddressSanitizer in the thorough tier)",
            "rule": CO + "Valid, truncated, extended and mutated inputs are decoded from a scratch buffer, detached, and the buffer is overwritten and freed; oracle: debug output, encoding, remainder and error equal those taken before and those of an independent static decoding. Distinct: hash of the input."},
    "C21": {"configs": codec(full=0), "thorough_configs": codec(full=0, relaxed=0),
            "must_see": ["round-trips", "corrupted-accepted", "corrupted-refused"] + ["judged:" + n for n in ("Atom", "AtomExt", "Tag", "Text", "Quoted", "ListCharString", "QuotedChar", "Literal", "Vec1", "Vec2", "DateTime", "NaiveDate", "CapabilityOther", "MailboxOther")],
            "rule": CO + "Messages are serialised to JSON and read back through four readers; then one node of the document is corrupted. Oracle: round trips are equal; an accepted document yields only parts that the RFC character classes allow (judged by walking the debug output), no reserved name in a fallback type and no line break on the wire. Distinct: hash of the document."},
    "C22": {"configs": codec(full=0, rel=0), "must_see": ["long-lived", "many-generators", "hand-over", "all-create-together", "generators"],
            "technique": "runtime monitoring: offline uniqueness and order checker over tag histories of concurrent threads",
            "rule": "Up to eight threads start together, create generators, generate, and hand generators over; one long-lived generator; 140 000 generators. Oracle over all tags of the process: valid, pairwise different also in generator and counter part, each generator counting by one; in release builds a fresh random part, different in another process. Distinct: hash of the schedule parameters."},
    "C23": {"configs": codec(strict=0, full=0, relaxed=0, q0=0, q1=0, q2=0, q3=0),
            "must_see": ["conforming", "rectified:MissingText", "rejected:MissingText", "rectified:line-end", "rejected:line-end", "more-than-documented", "undocumented-deviation", "sets-normalised", "sets-verbatim"],
            "rule": CO + "The documented deviation of a quirk is written into valid messages, or more than the documented deviation; builds: all quirks, none, and four half-on combinations. Oracle: with its quirk on the deviation decodes to the documented meaning, with it off it is rejected, and conforming input never changes meaning. Distinct: hash of the wire bytes."},
    "C24": {"configs": codec(full=0, default=0), "must_see": ["capability-known", "capability-other", "names-on-the-wire", "enumerated-near-misses"],
            "rule": "All known names of ten registries in random case, enumerated near misses (every one-character deletion, insertion at the ends, replacement), random atoms, through every conversion and over the wire; oracle: independent name tables. Distinct: hash of type and name."},
    "C25": {"configs": codec(full=0, default=0), "must_see": ["dates", "date-times-legal", "date-times-illegal", "impossible-texts", "enumerated"],
            "rule": "All days of selected years and all zone minutes enumerated, random date-times, impossible and malformed texts; oracle: independent calendar arithmetic and text format. Distinct: hash of the text."},
    "C26": {"configs": codec(full=0, default=0), "must_see": ["data", "code", "greeting", "status", "continue-ambiguous", "continue-legal", "continue-illegal", "SearchKey::uid", "part:fetch-names", "part:secret"] + "APPEND AUTHENTICATE COMPRESS COPY CREATE DELETE ENABLE EXAMINE FETCH GETQUOTA GETQUOTAROOT LIST LOGIN LSUB MOVE NAMESPACE RENAME SEARCH SELECT SETQUOTA STATUS STORE SUBSCRIBE UNSELECT UNSUBSCRIBE".split(),
            "rule": CO + "The parts of each generated message are handed to the convenience constructor for it; oracle: the same value, and the generator's wire form; accessors return the parts; illegal and ambiguous arguments are refused exactly. Distinct: hash of the wire bytes."},
    "C27": {"configs": codec(arb=0, arbs=0),
            "must_see": ["encoded"] + ["judged:" + n for n in "Atom AtomExt Tag Text Quoted ListCharString Literal Vec1 DateTime NaiveDate CapabilityOther MailboxOther".split()] + ["part:" + n for n in "BodyStructure Capability Code CommandBody Data DateTime Envelope Flag FlagNameAttribute IString Mailbox MessageDataItem NaiveDate SearchKey SequenceSet Thread".split()],
            "rule": "Byte strings (uniform, small numbers, runs, protocol words) drive the Arbitrary implementations of 4 message types and 16 part types, several values from one string; parts are placed in a message. Oracle: every part of the value is legal (RFC character classes, walking the debug output), the detached copy equals it, and encoding then decoding gives it back. Distinct: hash of the value."},
    "C28": {"configs": codec(full=0, default=0),
            "must_see": ["enumerated", "escapes", "byte-strings", "Atom", "Flag", "FlagNameAttribute", "AttributeFlag", "Capability", "AuthMechanism", "Resource", "ThreadingAlgorithm", "SortAlgorithm", "CapabilityEnable", "CompressionAlgorithm", "Macro", "Text", "Thread", "Capabilities", "Flags"],
            "rule": "All known names in all cases, near misses, random atoms and generated threads, capability and flag lists; every string of up to six out of three characters, every one- and two-byte string, and random strings for the escape functions; every byte for the character classes. Oracle: the printed parts put together give the bytes the encoder sends; escapes undo each other and lose nothing; RFC character classes. Distinct: hash of the name or string."},
    "C29": {"configs": codec(full=0, default=0), "must_see": ["enumerated", "ends", "equal", "different", "little-different", "less", "greater", "same", "overlapping", "atoms"],
            "rule": CO + "Pairs: a copy, a re-decoded message, a message decoded from a slightly edited wire form, another message; and all pairs of sequences over eleven ends. Oracle: equal exactly when all parts (debug output) agree, symmetric, equal values hash alike and are sent alike; order of sequences and numbers by interval arithmetic. Distinct: hash of the pair."},
    "C31": {"configs": codec(full=0, default=0), "thorough_configs": codec(full=0, default=0, strict=0, relaxed=0, rel=0),
            "must_see": ["sessions", "sessions-pipelined", "sessions-blocking", "literals-requested", "literals-refused", "non-sync-literals", "authenticate-answers", "idle-ended", "commands-delivered", "server-messages-delivered", "commands-poisoned", "commands-too-long", "malformed-commands"],
            "technique": "runtime monitoring: two peers over byte pipes with random schedules; trace checker for progress, exactly-once in-order delivery and the literal handshake",
            "rule": CO + "A client and a server model exchange them over two pipes that deliver random pieces; oracle: every message arrives once, in order and unchanged, each literal is asked for once, refusals carry the right tag, and the session comes to its end. Distinct: hash of the session's transcript."},
    "C30": {"configs": codec(full=0, default=0), "must_see": ["enumerated", "offending-byte", "empty", "reserved", "too-few", "year", "nanoseconds", "offset", "LOGIN", "RENAME", "LIST", "LSUB", "APPEND", "COPY", "ambiguous", "accepted"],
            "rule": "Legal and illegal contents (every byte at several places enumerated, random) given to every validating constructor, two-argument command constructors with one or both arguments illegal, dates and lists. Oracle: the error names the first offending byte and its position, emptiness, reserved names, the argument at fault, the missing minimum, the year, nanoseconds or offset. Distinct: hash of the content."},
}

NOT_APPLICABLE = {}
