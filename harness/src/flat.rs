//! Long flat messages whose items all differ: `#` in the unit counts up in odd numbers.
use crate::msg::Kind;

pub type Flat = (&'static str, &'static str, &'static str, &'static str, Kind);

#[rustfmt::skip]
pub const DISTINCT: &[Flat] = &[
    ("a SEARCH 1", ",#", "", "\r\n", Kind::Command),
    ("a SEARCH 1:2", ",#:*", "", "\r\n", Kind::Command),
    ("a SEARCH ALL", " KEYWORD k#", "", "\r\n", Kind::Command),
    ("a SEARCH (ALL", " HEADER x# \"y#\"", ")", "\r\n", Kind::Command),
    ("a UID SEARCH ALL", " UID #:#", "", "\r\n", Kind::Command),
    ("a SEARCH ALL", " OR SUBJECT s# NOT LARGER #", "", "\r\n", Kind::Command),
    ("a FETCH 1", ",#", "", " ALL\r\n", Kind::Command),
    ("a FETCH 1 (UID", " BODY[#]", ")", "\r\n", Kind::Command),
    ("a FETCH 1 BODY[1", ".#", "]", "\r\n", Kind::Command),
    ("a FETCH 1 BODY[HEADER.FIELDS (a", " b#", ")]", "\r\n", Kind::Command),
    ("a FETCH 1 (UID", " BODY.PEEK[HEADER.FIELDS.NOT (\"x#\" y)]<#.#>", ")", "\r\n", Kind::Command),
    ("a STORE 1 FLAGS (a", " b#", ")", "\r\n", Kind::Command),
    ("a STORE 1 FLAGS \\Seen", " \\b#", "", "\r\n", Kind::Command),
    ("a APPEND x (a", " \\b#", ") {1+}\r\nx", "\r\n", Kind::Command),
    ("a ENABLE X", " E#", "", "\r\n", Kind::Command),
    ("a STATUS x (UNSEEN", " RECENT", ")", "\r\n", Kind::Command),
    ("a SORT (DATE", " REVERSE SIZE", ") UTF-8 ALL", "\r\n", Kind::Command),
    ("a THREAD REFERENCES UTF-8 ALL", " TEXT t#", "", "\r\n", Kind::Command),
    ("a ID (\"a\" \"b\"", " \"k#\" \"v#\"", ")", "\r\n", Kind::Command),
    ("a SETQUOTA x (STORAGE 1", " R# #", ")", "\r\n", Kind::Command),
    ("a GETMETADATA x (/shared/a", " /shared/b#", ")", "\r\n", Kind::Command),
    ("a SETMETADATA x (/shared/a NIL", " /shared/b# \"v#\"", ")", "\r\n", Kind::Command),
    ("a SELECT x (QRESYNC (1 1 1", ",#", "))", "\r\n", Kind::Command),
    ("a SELECT \"", "m#\\\\", "\"", "\r\n", Kind::Command),
    ("a LOGIN \"", "ä#", "\" x", "\r\n", Kind::Command),
    ("a LOGIN \"", "ä\\\"", "\" x", "\r\n", Kind::Command),
    ("a RENAME \"", "\\\\", "\" x", "\r\n", Kind::Command),
    ("a LIST \"\" ", "%#*", "", "\r\n", Kind::Command),
    ("a LOGIN u ", "p#", "", "\r\n", Kind::Command),
    ("* CAPABILITY IMAP4REV1", " X#", "", "\r\n", Kind::Response),
    ("* CAPABILITY IMAP4REV1", " AUTH=M#", "", "\r\n", Kind::Response),
    ("* ENABLED", " E#", "", "\r\n", Kind::Response),
    ("* SEARCH", " #", "", "\r\n", Kind::Response),
    ("* SORT", " #", "", "\r\n", Kind::Response),
    ("* THREAD ", "(#)", "", "\r\n", Kind::Response),
    ("* THREAD (1", " #", ")", "\r\n", Kind::Response),
    ("* THREAD (1 ", "(#)", ")", "\r\n", Kind::Response),
    ("* THREAD ((1)", "(#)", ")", "\r\n", Kind::Response),
    ("* FLAGS (a", " b#", ")", "\r\n", Kind::Response),
    ("* LIST (\\a", " \\b#", ") \"/\" x", "\r\n", Kind::Response),
    ("* STATUS x (UNSEEN 1", " MESSAGES #", ")", "\r\n", Kind::Response),
    ("* QUOTA x (STORAGE 1 1", " R# # #", ")", "\r\n", Kind::Response),
    ("* QUOTAROOT x", " r#", "", "\r\n", Kind::Response),
    ("* NAMESPACE ((\"a\" \"/\")", "(\"n#\" \"/\")", ") NIL NIL", "\r\n", Kind::Response),
    ("* NAMESPACE ((\"a\" \"/\"", " \"X#\" (\"p#\" \"q\")", ")) NIL NIL", "\r\n", Kind::Response),
    ("* ID (\"a\" \"b\"", " \"k#\" \"v#\"", ")", "\r\n", Kind::Response),
    ("* METADATA x /shared/a", " /shared/b#", "", "\r\n", Kind::Response),
    ("* METADATA x (/shared/a NIL", " /shared/b# \"v#\"", ")", "\r\n", Kind::Response),
    ("* VANISHED 1", ",#", "", "\r\n", Kind::Response),
    ("* OK [PERMANENTFLAGS (a", " b#", ")] x", "\r\n", Kind::Response),
    ("* OK [BADCHARSET (a", " \"b#\"", ")] x", "\r\n", Kind::Response),
    ("* OK [CAPABILITY IMAP4REV1", " X#", "] x", "\r\n", Kind::Response),
    ("* OK [MODIFIED 1", ",#", "] x", "\r\n", Kind::Response),
    ("* OK [COPYUID 1 1", ",#", " 1:9] z", "\r\n", Kind::Response),
    ("* OK [X", " y#", "] z", "\r\n", Kind::Response),
    ("* OK ", "x# ", "x", "\r\n", Kind::Response),
    ("* 1 FETCH (UID 1", " UID #", ")", "\r\n", Kind::Response),
    ("* 1 FETCH (UID 1", " BODY[#] \"x#\"", ")", "\r\n", Kind::Response),
    ("* 1 FETCH (UID 1", " BODY[#] {1}\r\nx", ")", "\r\n", Kind::Response),
    ("* 1 FETCH (FLAGS (a", " b#", "))", "\r\n", Kind::Response),
    ("* 1 FETCH (ENVELOPE (NIL NIL ((NIL NIL NIL NIL)", "(NIL NIL \"m#\" \"h\")", ") NIL NIL NIL NIL NIL NIL NIL))", "\r\n", Kind::Response),
    ("* 1 FETCH (ENVELOPE (NIL \"", "\\\"\\\\", "\" NIL NIL NIL NIL NIL NIL NIL NIL))", "\r\n", Kind::Response),
    ("* 1 FETCH (BODY (", "(\"TEXT\" \"P#\" NIL NIL NIL \"7BIT\" 1 1)", " \"MIXED\"))", "\r\n", Kind::Response),
    ("* 1 FETCH (BODY (\"TEXT\" \"PLAIN\" (\"a\" \"b\"", " \"c#\" \"d\"", ") NIL NIL \"7BIT\" 1 1))", "\r\n", Kind::Response),
    ("* 1 FETCH (BODYSTRUCTURE (\"TEXT\" \"PLAIN\" NIL NIL NIL \"7BIT\" 1 1 NIL (\"a\" (\"k\" \"v\"", " \"k#\" \"v\"", "))))", "\r\n", Kind::Response),
    ("* 1 FETCH (BODYSTRUCTURE (\"TEXT\" \"PLAIN\" NIL NIL NIL \"7BIT\" 1 1 NIL NIL (\"a\"", " \"l#\"", ")))", "\r\n", Kind::Response),
    ("* 1 FETCH (BODYSTRUCTURE (\"TEXT\" \"PLAIN\" NIL NIL NIL \"7BIT\" 1 1 NIL NIL NIL NIL", " #", "))", "\r\n", Kind::Response),
    ("* 1 FETCH (BODYSTRUCTURE (\"TEXT\" \"PLAIN\" NIL NIL NIL \"7BIT\" 1 1 NIL NIL NIL NIL (1", " \"e#\"", ")))", "\r\n", Kind::Response),
    ("* OK [CAPABILITY IMAP4REV1", " X#", "] x", "\r\n", Kind::Greeting),
    ("* OK [REFERRAL imap://", "h#/", "] x", "\r\n", Kind::Greeting),
];
