//! C07: malformed messages written by hand from the grammars, production by production. They are
//! kept apart from the generator: what is broken here need not be broken by its rules.
use imap_types::response::{Code, CodeOther};

use crate::{
    cogen::ANY_QUIRK,
    ctx::Ctx,
    msg::{Dec, Kind, decode},
    rng::Rng,
    wire::show,
};

/// Without tag and line end.
const COMMANDS: &[&str] = &[
    "", " ", "FOO", "NOOP x", "NOOP ", "NOOP(", "CAPABILITY x", "LOGOUT x", "STARTTLS x", "CHECK x", "CLOSE x", "EXPUNGE x", "EXPUNGE 1", "UNSELECT x", "NAMESPACE x", "IDLE x",
    " NOOP", "NO OP", "\"NOOP\"", "(NOOP)", "NOOP NOOP", "UIDNOOP", "UID NOOP", "UID", "UID ", "UID FOO", "UID COPY", "UID UID FETCH 1 FLAGS", "UID EXPUNGE", "UID EXPUNGE x", "UID EXPUNGE ",
    "AUTHENTICATE", "AUTHENTICATE ", "AUTHENTICATE \"PLAIN\"", "AUTHENTICATE (PLAIN)", "AUTHENTICATE PLAIN x", "AUTHENTICATE PLAIN AA==AA", "AUTHENTICATE PLAIN ==",
    "AUTHENTICATE PLAIN AA== AA==", "AUTHENTICATE PLAIN AA=", "AUTHENTICATE PLAIN \"AA==\"", "AUTHENTICATE PLAIN A===",
    "LOGIN", "LOGIN ", "LOGIN a", "LOGIN a ", "LOGIN a b c", "LOGIN a  b", "LOGIN (a) b", "LOGIN a (b)", "LOGIN a \"b", "LOGIN \"a b", "LOGIN a b\"", "LOGIN\"a\" b", "LOGIN \"a\"\"b\"", "LOGIN a% b", "LOGIN a b*", "LOGIN \"a\\b\" c",
    "SELECT", "SELECT ", "SELECT a b", "SELECT (a)", "SELECT a%", "SELECT *", "SELECT \"a", "SELECT a ", "SELECT a ()", "SELECT a (", "SELECT a (FOO)", "SELECT a CONDSTORE", "SELECT a (CONDSTORE", "SELECT a(CONDSTORE)",
    "SELECT a (CONDSTORE,CONDSTORE)", "SELECT a (QRESYNC)", "SELECT a (QRESYNC 1 1)", "SELECT a (QRESYNC (1))", "SELECT a (QRESYNC (0 1))", "SELECT a (QRESYNC (1 0))", "SELECT a (QRESYNC (x 1))", "SELECT a (QRESYNC (1 1)", "SELECT a (QRESYNC (1 1 ()))",
    "SELECT a (QRESYNC (1 1 1:2 ()))", "SELECT a (QRESYNC (1 1 1:2 (1)))", "SELECT a (QRESYNC (1 1 1:2 (1 2) 3))", "SELECT a (QRESYNC (1 1 1:2 (1 2 3)))", "SELECT a (QRESYNC (1 1 x))", "SELECT a (QRESYNC (4294967296 1))",
    "EXAMINE", "EXAMINE ", "EXAMINE a b", "EXAMINE (a)", "EXAMINE a ()", "EXAMINE a (FOO)", "EXAMINE a CONDSTORE",
    "CREATE", "CREATE ", "CREATE a b", "CREATE (a)", "CREATE a%", "CREATE a ", "CREATE a (b)", "DELETE", "DELETE a b", "DELETE (a)", "DELETE a*", "SUBSCRIBE", "SUBSCRIBE a b", "SUBSCRIBE (a)", "UNSUBSCRIBE", "UNSUBSCRIBE a b", "UNSUBSCRIBE (a)",
    "RENAME", "RENAME a", "RENAME a ", "RENAME a b c", "RENAME a (b)", "RENAME (a b)", "RENAME a  b", "RENAME a, b c",
    "LIST", "LIST a", "LIST a ", "LIST a b c", "LIST a \"b", "LIST a (b)", "LIST (a) b", "LIST % a", "LIST a* b", "LIST  a", "LIST \"\" \"a\"b", "LIST a {", "LSUB", "LSUB a", "LSUB a b c", "LSUB a (b)", "LSUB % a", "LIST () a b", "LIST a \\b", "LIST a b\"c",
    "STATUS", "STATUS a", "STATUS a ", "STATUS a MESSAGES", "STATUS a (MESSAGES", "STATUS a (FOO)", "STATUS a (MESSAGES,RECENT)", "STATUS a (MESSAGES  RECENT)", "STATUS a ( MESSAGES)", "STATUS a(MESSAGES)", "STATUS (a) (MESSAGES)", "STATUS (MESSAGES)",
    "STATUS a (MESSAGES) x", "STATUS a ((MESSAGES))", "STATUS a MESSAGES)", "STATUS a (\"MESSAGES\")", "STATUS a (MESSAGES 1)", "STATUS a (UIDNEXTUIDVALIDITY)",
    "APPEND", "APPEND a", "APPEND a ", "APPEND a \"x\"", "APPEND a x", "APPEND a ()", "APPEND a () ", "APPEND a () \"x\"", "APPEND a {1+}\r\nx y", "APPEND a {1+}\r\nx(", "APPEND a x {1+}\r\nx", "APPEND a (x {1+}\r\nx", "APPEND a x) {1+}\r\nx",
    "APPEND a (\\*) {1+}\r\nx", "APPEND a (\\) {1+}\r\nx", "APPEND a (\"x\") {1+}\r\nx", "APPEND a ((x)) {1+}\r\nx", "APPEND a (x){1+}\r\nx", "APPEND a{1+}\r\nx", "APPEND (x) {1+}\r\nx", "APPEND a (x) (y) {1+}\r\nx", "APPEND a \"\" {1+}\r\nx",
    "APPEND a \"01-Jan-2020 00:00:00 +0000\" (x) {1+}\r\nx", "APPEND a 01-Jan-2020 {1+}\r\nx", "APPEND a \"01-Jan-2020\" {1+}\r\nx", "APPEND a \"01-Jan-2020 00:00:00\" {1+}\r\nx", "APPEND a \"01-Jan-2020 00:00:00 0000\" {1+}\r\nx", "APPEND a \"1-Jan-2020 00:00:00 +0000\" {1+}\r\nx",
    "APPEND a \"01-Foo-2020 00:00:00 +0000\" {1+}\r\nx", "APPEND a \"01-Jan-20 00:00:00 +0000\" {1+}\r\nx", "APPEND a \"00-Jan-2020 00:00:00 +0000\" {1+}\r\nx", "APPEND a \"32-Jan-2020 00:00:00 +0000\" {1+}\r\nx", "APPEND a \"30-Feb-2020 00:00:00 +0000\" {1+}\r\nx",
    "APPEND a \"01-Jan-2020 24:00:00 +0000\" {1+}\r\nx", "APPEND a \"01-Jan-2020 00:60:00 +0000\" {1+}\r\nx", "APPEND a \"01-Jan-2020 00:00:61 +0000\" {1+}\r\nx", "APPEND a \"01-Jan-2020 0:00:00 +0000\" {1+}\r\nx", "APPEND a \"01-Jan-2020 00:00:00 +000\" {1+}\r\nx",
    "APPEND a \"01-Jan-2020 00:00:00 +00000\" {1+}\r\nx", "APPEND a \"01-Jan-2020 00:00:00 GMT\" {1+}\r\nx", "APPEND a \"01-Jan-2020 00:00 +0000\" {1+}\r\nx", "APPEND a \"01-Jan-2020  00:00:00 +0000\" {1+}\r\nx", "APPEND a \"01-Jan-2020 00:00:00 +00:00\" {1+}\r\nx", "APPEND a \"01/Jan/2020 00:00:00 +0000\" {1+}\r\nx",
    "APPEND a \"01-01-2020 00:00:00 +0000\" {1+}\r\nx", "APPEND a \"001-Jan-2020 00:00:00 +0000\" {1+}\r\nx", "APPEND a \"01-Jan-02020 00:00:00 +0000\" {1+}\r\nx", "APPEND a {1+}\r\nx {1+}\r\ny", "APPEND a {0+}\r\nx", "APPEND a {1}x",
    "SEARCH", "SEARCH ", "SEARCH CHARSET", "SEARCH CHARSET UTF-8", "SEARCH CHARSET UTF-8 ", "SEARCH CHARSET ALL", "SEARCH ALL CHARSET UTF-8 ALL", "SEARCH ()", "SEARCH (", "SEARCH NOT", "SEARCH NOT ", "SEARCH OR ALL", "SEARCH OR", "SEARCH OR ALL ", "SEARCH OR (ALL ALL)", "SEARCH FOO", "SEARCH 0", "SEARCH 1:", "SEARCH :1", "SEARCH 1,", "SEARCH ,1", "SEARCH 1:2:3", "SEARCH 1..2", "SEARCH 1;2", "SEARCH -1", "SEARCH 4294967296", "SEARCH 0:*", "SEARCH **",
    "SEARCH BEFORE", "SEARCH BEFORE x", "SEARCH BEFORE 1-Jan-20", "SEARCH BEFORE 0-Jan-2020", "SEARCH BEFORE 32-Jan-2020", "SEARCH BEFORE 31-Jun-2020", "SEARCH BEFORE 29-Feb-2021", "SEARCH BEFORE \"1-Jan-2020", "SEARCH BEFORE 1-Jan-2020\"", "SEARCH BEFORE 1-January-2020", "SEARCH BEFORE 2020-Jan-1", "SEARCH BEFORE 1-Jan-2020 00:00:00", "SEARCH BEFORE 001-Jan-2020",
    "SEARCH BEFORE (1-Jan-2020)", "SEARCH ON", "SEARCH SINCE", "SEARCH SENTON", "SEARCH SENTSINCE x", "SEARCH SENTBEFORE x", "SEARCH FROM", "SEARCH FROM ", "SEARCH TO", "SEARCH CC", "SEARCH BCC", "SEARCH SUBJECT", "SEARCH TEXT", "SEARCH BODY", "SEARCH SUBJECT (a)", "SEARCH FROM a b", "SEARCH HEADER", "SEARCH HEADER a", "SEARCH HEADER a ", "SEARCH HEADER (a) b", "SEARCH HEADER a (b)",
    "SEARCH KEYWORD", "SEARCH KEYWORD \"x\"", "SEARCH KEYWORD \\Seen", "SEARCH UNKEYWORD", "SEARCH UNKEYWORD (x)", "SEARCH KEYWORD x y", "SEARCH LARGER", "SEARCH LARGER x", "SEARCH LARGER -1", "SEARCH LARGER 4294967296", "SEARCH LARGER \"1\"", "SEARCH SMALLER x", "SEARCH SMALLER 1 2x",
    "SEARCH UID", "SEARCH UID 0", "SEARCH UID x", "SEARCH UID (1)", "SEARCH UNDELETED x", "SEARCH ALL,ALL", "SEARCH ALL)", "SEARCH (ALL", "SEARCH ( ALL)", "SEARCH ((ALL)", "SEARCH (ALL))", "SEARCH (ALL)(ALL)", "SEARCH ALL(ALL)", "SEARCH (ALL,ALL)", "SEARCH \"ALL\"", "SEARCH ALL  ALL", "SEARCH  ALL", "SEARCH ALLALL", "SEARCH NOTALL", "SEARCH OLDNEW", "SEARCH \\Seen",
    "SEARCH MODSEQ", "SEARCH MODSEQ x", "SEARCH MODSEQ -1", "SEARCH MODSEQ \"/flags/x\" 1", "SEARCH MODSEQ \"/flags/x\" all", "SEARCH MODSEQ \"/flags/x\" foo 1", "SEARCH MODSEQ all 1", "UID SEARCH", "UID SEARCH ", "UID SEARCH ()", "UID SEARCH CHARSET UTF-8", "SEARCH RETURN () ", "SEARCH CHARSET (UTF-8) ALL",
    "FETCH", "FETCH ", "FETCH 1", "FETCH 1 ", "FETCH x FLAGS", "FETCH 0 FLAGS", "FETCH  1 FLAGS", "FETCH 1  FLAGS", "FETCH (1) FLAGS", "FETCH 1 2 FLAGS", "FETCH 1, FLAGS", "FETCH 1: FLAGS", "FETCH FLAGS", "FETCH 1 FOO", "FETCH 1 (ALL)", "FETCH 1 (FAST)", "FETCH 1 (FULL)", "FETCH 1 (FLAGS FAST)", "FETCH 1 ALL FLAGS", "FETCH 1 FLAGS UID", "FETCH 1 (FLAGS", "FETCH 1 FLAGS)",
    "FETCH 1 (FLAGS,UID)", "FETCH 1 (FLAGS)(UID)", "FETCH 1 ((FLAGS))", "FETCH 1 ( FLAGS)", "FETCH 1 (FLAGS  UID)", "FETCH 1 \"FLAGS\"", "FETCH 1 BODY[", "FETCH 1 BODY]", "FETCH 1 BODY[]]", "FETCH 1 BODY []", "FETCH 1 BODY[] []", "FETCH 1 BODY[ ]", "FETCH 1 BODY[]<", "FETCH 1 BODY[]<0>", "FETCH 1 BODY[]<0.0>", "FETCH 1 BODY[]<1.>", "FETCH 1 BODY[]<.1>", "FETCH 1 BODY[]<0.1", "FETCH 1 BODY[]<0,1>", "FETCH 1 BODY[]<0-1>",
    "FETCH 1 BODY[]<-1.1>", "FETCH 1 BODY[]<0.1.2>", "FETCH 1 BODY[]<0.4294967296>", "FETCH 1 BODY[]<4294967296.1>", "FETCH 1 BODY[]<>", "FETCH 1 BODY[]<0.1><0.1>", "FETCH 1 BODY[] <0.1>", "FETCH 1 BODY<0.1>", "FETCH 1 BODY<0.1>[]", "FETCH 1 BODY[0]", "FETCH 1 BODY[1.]", "FETCH 1 BODY[.1]", "FETCH 1 BODY[1..2]", "FETCH 1 BODY[1.0]", "FETCH 1 BODY[-1]", "FETCH 1 BODY[4294967296]", "FETCH 1 BODY[1,2]", "FETCH 1 BODY[1:2]", "FETCH 1 BODY[MIME]",
    "FETCH 1 BODY[*]", "FETCH 1 BODY[FOO]", "FETCH 1 BODY[1.FOO]", "FETCH 1 BODY[TEXT.1]", "FETCH 1 BODY[HEADER.1]", "FETCH 1 BODY[1TEXT]", "FETCH 1 BODY[1 TEXT]", "FETCH 1 BODY[TEXT ]", "FETCH 1 BODY[\"TEXT\"]", "FETCH 1 BODY[TEXT HEADER]", "FETCH 1 BODY[HEADER.FIELDS]", "FETCH 1 BODY[HEADER.FIELDS ()]", "FETCH 1 BODY[HEADER.FIELDS (a]", "FETCH 1 BODY[HEADER.FIELDS a]", "FETCH 1 BODY[HEADER.FIELDS(a)]", "FETCH 1 BODY[HEADER.FIELDS (a,b(]", "FETCH 1 BODY[HEADER.FIELDS (a)",
    "FETCH 1 BODY[HEADER.FIELDS ((a))]", "FETCH 1 BODY[HEADER.FIELDS (a) ]", "FETCH 1 BODY[HEADER.FIELDS ( a)]", "FETCH 1 BODY[HEADER.FIELDS.NOT]", "FETCH 1 BODY[HEADER.FIELDS.NOT ()]", "FETCH 1 BODY[HEADER.FIELDS.NOT a]", "FETCH 1 BODY[HEADER.FIELDS.FOO (a)]", "FETCH 1 BODY[HEADER (a)]", "FETCH 1 BODY[HEADER.NOT (a)]", "FETCH 1 BODY[1.MIME.TEXT]",
    "FETCH 1 RFC822.PEEK", "FETCH 1 RFC822.", "FETCH 1 RFC822.HEADER.TEXT", "FETCH 1 BODY.PEEK", "FETCH 1 BODY.PEEK[", "FETCH 1 BODY.PEEK []", "FETCH 1 BODY.SIZE[]", "FETCH 1 BODYSTRUCTURE[]", "FETCH 1 ENVELOPE x", "FETCH 1 FLAGS ()", "FETCH 1 FLAGS (FOO)", "FETCH 1 FLAGS CHANGEDSINCE 1", "FETCH 1 FLAGS (CHANGEDSINCE)", "FETCH 1 FLAGS (CHANGEDSINCE x)", "FETCH 1 FLAGS (CHANGEDSINCE 1", "FETCH 1 FLAGS(CHANGEDSINCE 1)", "FETCH 1 FLAGS (CHANGEDSINCE 0)",
    "FETCH 1 FLAGS (CHANGEDSINCE 1 FOO)", "FETCH 1 FLAGS (CHANGEDSINCE 1,VANISHED)", "FETCH 1 (FLAGS CHANGEDSINCE 1)", "FETCH 1 BINARY", "FETCH 1 BINARY[", "FETCH 1 BINARY[TEXT]", "FETCH 1 BINARY[1.MIME]", "FETCH 1 BINARY[0]", "FETCH 1 BINARY[1]<0>", "FETCH 1 BINARY[1]<0.0>", "FETCH 1 BINARY[1.]", "FETCH 1 BINARY.SIZE[1]<0.1>", "FETCH 1 BINARY.SIZE", "FETCH 1 BINARY.PEEK", "FETCH 1 BINARY.FOO[1]", "UID FETCH", "UID FETCH 1", "UID FETCH 0 FLAGS",
    "STORE", "STORE 1", "STORE 1 ", "STORE 1 FLAGS", "STORE 1 FLAGS ", "STORE 1 ++FLAGS (x)", "STORE 1 *FLAGS (x)", "STORE 1 + FLAGS (x)", "STORE 1 FLAGS. (x)", "STORE 1 FLAGS.FOO (x)", "STORE 1 .SILENT (x)", "STORE 1 FLAGS.SILENT", "STORE 1 FLAGS SILENT (x)(", "STORE 1 FLAGS (x", "STORE 1 FLAGS x)", "STORE 1 FLAGS (x) y", "STORE 1 FLAGS (x,(y)", "STORE 1 FLAGS (x  y)", "STORE 1 FLAGS ( x)", "STORE 1 FLAGS x  y", "STORE 1 FLAGS(x)", "STORE 1 FLAGS \"x\"", "STORE 1 FLAGS (\\*)", "STORE 1 FLAGS \\", "STORE 1 FLAGS ((x))", "STORE x FLAGS (x)", "STORE 0 FLAGS (x)", "STORE FLAGS (x)",
    "STORE 1 () FLAGS (x)", "STORE 1 (FOO 1) FLAGS (x)", "STORE 1 (UNCHANGEDSINCE) FLAGS (x)", "STORE 1 (UNCHANGEDSINCE x) FLAGS (x)", "STORE 1 (UNCHANGEDSINCE 1 FLAGS (x)", "STORE 1 UNCHANGEDSINCE 1 FLAGS (x)", "STORE 1 (UNCHANGEDSINCE 1)FLAGS (x)", "STORE 1 FLAGS (x) (UNCHANGEDSINCE 1)", "STORE 1 (UNCHANGEDSINCE 1) (UNCHANGEDSINCE 1) FLAGS (x)", "UID STORE", "UID STORE 1 FLAGS", "UID STORE 0 FLAGS (x)",
    "COPY", "COPY 1", "COPY 1 ", "COPY 1 a b", "COPY x a", "COPY 1 (a)", "COPY a", "COPY 1 2 a", "COPY (1) a", "MOVE", "MOVE 1", "MOVE 1 a b", "MOVE x a", "UID MOVE 1", "UID COPY 1", "UID COPY 1 a b", "UID MOVE 0 a",
    "ENABLE", "ENABLE ", "ENABLE (x)", "ENABLE \"x\"", "ENABLE x  y", "ENABLE x ", "COMPRESS", "COMPRESS ", "COMPRESS FOO", "COMPRESS DEFLATE x", "COMPRESS \"DEFLATE\"", "COMPRESS DEFLATE ", "COMPRESS (DEFLATE)",
    "GETQUOTA", "GETQUOTA ", "GETQUOTA a b", "GETQUOTA (a)", "GETQUOTAROOT", "GETQUOTAROOT ", "GETQUOTAROOT a b", "GETQUOTAROOT (a)", "SETQUOTA", "SETQUOTA a", "SETQUOTA a ", "SETQUOTA a STORAGE 1", "SETQUOTA a (STORAGE)", "SETQUOTA a (STORAGE x)", "SETQUOTA a (STORAGE -1)", "SETQUOTA a (STORAGE 1", "SETQUOTA a (STORAGE 1,MESSAGE 1)", "SETQUOTA a (STORAGE 1 MESSAGE)", "SETQUOTA a (1 STORAGE)", "SETQUOTA a ((STORAGE 1))", "SETQUOTA a (\"STORAGE\" 1)", "SETQUOTA a (STORAGE 18446744073709551616)", "SETQUOTA (STORAGE 1)", "SETQUOTA a(STORAGE 1)",
    "ID", "ID ", "ID (", "ID (\"a\")", "ID (\"a\" \"b\" \"c\")", "ID (NIL \"a\")", "ID (NIL NIL)", "ID (\"a\" b)", "ID (a \"b\")", "ID \"a\" \"b\"", "ID ((\"a\" \"b\"))", "ID (\"a\" \"b\"", "ID (\"a\" (\"b\"))", "ID (\"a\",\"b\")", "ID (\"a\"\"b\")", "ID NIL NIL", "ID (\"a\" \"b\") x", "ID x", "ID \"\"",
    "GETMETADATA", "GETMETADATA a", "GETMETADATA a ", "GETMETADATA a ()", "GETMETADATA a (/p", "GETMETADATA a (/p) x", "GETMETADATA (MAXSIZE x) a /p", "GETMETADATA (MAXSIZE) a /p", "GETMETADATA (MAXSIZE -1) a /p", "GETMETADATA (DEPTH 2) a /p", "GETMETADATA (DEPTH) a /p", "GETMETADATA (DEPTH INF) a /p", "GETMETADATA (FOO 1) a /p", "GETMETADATA () a /p", "GETMETADATA (MAXSIZE 1 DEPTH) a /p", "GETMETADATA (MAXSIZE 1,DEPTH 1) a /p", "GETMETADATA MAXSIZE 1 a /p", "GETMETADATA (MAXSIZE 4294967296) a /p", "GETMETADATA (DEPTH 01) a /p",
    "SETMETADATA", "SETMETADATA a", "SETMETADATA a ()", "SETMETADATA a (/p)", "SETMETADATA a (/p x)", "SETMETADATA a /p \"x\"", "SETMETADATA a (/p \"x\" /q)", "SETMETADATA a (/p \"x\"", "SETMETADATA a (/p (\"x\"))", "SETMETADATA a ((/p \"x\"))", "SETMETADATA a (/p \"x\",/q \"x\")", "SETMETADATA (/p \"x\")", "SETMETADATA a (/p NIL NIL)",
    "SORT", "SORT ", "SORT ()", "SORT (ARRIVAL)", "SORT (ARRIVAL) UTF-8", "SORT (ARRIVAL) UTF-8 ", "SORT () UTF-8 ALL", "SORT ARRIVAL UTF-8 ALL", "SORT (REVERSE) UTF-8 ALL", "SORT (FOO) UTF-8 ALL", "SORT (ARRIVAL,CC) UTF-8 ALL", "SORT (REVERSE REVERSE ARRIVAL) UTF-8 ALL", "SORT (ARRIVAL REVERSE) UTF-8 ALL", "SORT (ARRIVAL UTF-8 ALL", "SORT (ARRIVAL) (UTF-8) ALL", "SORT (ARRIVAL) UTF-8 ()", "SORT (ARRIVAL)UTF-8 ALL", "SORT (\"ARRIVAL\") UTF-8 ALL", "SORT (REVERSEARRIVAL) UTF-8 ALL", "SORT (ARRIVAL  CC) UTF-8 ALL", "UID SORT", "UID SORT (ARRIVAL) UTF-8", "UID SORT () UTF-8 ALL",
    "THREAD", "THREAD REFERENCES", "THREAD REFERENCES UTF-8", "THREAD REFERENCES UTF-8 ", "THREAD (REFERENCES) UTF-8 ALL", "THREAD \"REFERENCES\" UTF-8 ALL", "THREAD REFERENCES UTF-8 ()", "THREAD REFERENCES (UTF-8) ALL", "UID THREAD", "UID THREAD REFERENCES UTF-8",
];
/// Whole lines of a client.
const COMMAND_LINES: &[&str] = &[
    "", " ", "NOOP", "a", "a ", " a NOOP", "a  NOOP", "a\tNOOP", "a NOOP\t", "* NOOP", "+ NOOP", "a+ NOOP", "a+b NOOP", "\"a\" NOOP", "a\" NOOP", "(a) NOOP", "a( NOOP", "a% NOOP", "a* NOOP", "a{ NOOP", "a\\ NOOP", "\r NOOP", "a\r NOOP", "a\n NOOP", "a NOOP\r", "a NO\rOP", "{1+}\r\na NOOP", "DONE",
    "a\0 NOOP", "a\x7f NOOP", "a NOOP\0", "a \0NOOP",
];
/// Without `* ` and line end.
const DATA: &[&str] = &[
    "", " ", "FOO", "FOO x", "FLAGS", "FLAGS ", "FLAGS x", "FLAGS (", "FLAGS (\\*)", "FLAGS (x,(y)", "FLAGS (x) y", "FLAGS ((x))", "FLAGS (\"x\")", "FLAGS (x  y)", "FLAGS ( x)", "FLAGS(x)", "FLAGS  (x)", "FLAGS NIL", "FLAGS (\\)",
    "LIST", "LIST ", "LIST ()", "LIST () \"/\"", "LIST () \"/\" ", "LIST () / a", "LIST () \"//\" a", "LIST () \"\" a", "LIST () \"\\\" a", "LIST () \"\\x\" a", "LIST x \"/\" a", "LIST (x y \"/\" a", "LIST () \"/\" a b", "LIST () NIL", "LIST NIL \"/\" a", "LIST \"/\" a", "LIST (\\Noselect,\\Marked) \"/\" a", "LIST (Noselect) \"/\" a", "LIST (\\) \"/\" a", "LIST () \"/\" (a)", "LIST () \"/\" %", "LIST () (\"/\") a", "LIST () \"/\" NIL NIL", "LIST ()\"/\" a", "LIST () \"/\"a", "LIST (\\Noselect\\Marked) \"/\" a", "LIST () {1}\r\n/ a", "LIST () \"\r\" a",
    "LSUB", "LSUB ()", "LSUB () \"/\"", "LSUB () / a", "LSUB () \"//\" a", "LSUB x \"/\" a", "LSUB () \"/\" a b",
    "SEARCH x", "SEARCH 0", "SEARCH 1,2", "SEARCH  1", "SEARCH 1  2", "SEARCH 1:2", "SEARCH *", "SEARCH -1", "SEARCH 4294967296", "SEARCH (1)", "SEARCH \"1\"", "SEARCH 1 (MODSEQ)", "SEARCH 1 MODSEQ 2", "SEARCH 1 (MODSEQ x)", "SEARCH 1 (MODSEQ 0)", "SEARCH 1 (MODSEQ 2", "SEARCH (MODSEQ 2) 1", "SEARCH 1 (FOO 2)", "SEARCH 1(MODSEQ 2)", "SEARCH1", "SEARCH 1 (MODSEQ 2) 3", "SEARCH 1 ((MODSEQ 2))", "SEARCH NIL",
    "SORT x", "SORT 0", "SORT 1,2", "SORT  1", "SORT (1)", "SORT 1 (MODSEQ)", "SORT 1 (MODSEQ 0)", "SORT 1 MODSEQ 2", "SORT1",
    "THREAD 1", "THREAD ()", "THREAD (0)", "THREAD (x)", "THREAD (1", "THREAD (1)(", "THREAD (1) x", "THREAD (1,2)", "THREAD (1  2)", "THREAD ( 1)", "THREAD 1 (2)", "THREAD(1)", "THREAD (1 ())", "THREAD (4294967296)", "THREAD \"1\"", "THREAD (())", "THREAD (1))", "THREAD (1:2)",
    "STATUS", "STATUS a", "STATUS a ", "STATUS a MESSAGES 1", "STATUS a (MESSAGES)", "STATUS a (MESSAGES x)", "STATUS a (MESSAGES -1)", "STATUS a (FOO 1)", "STATUS a (UIDNEXT 0)", "STATUS a (UIDVALIDITY 0)", "STATUS a (MESSAGES 1,RECENT 1)", "STATUS a (MESSAGES 1 RECENT)", "STATUS a (MESSAGES 1", "STATUS (MESSAGES 1)", "STATUS a(MESSAGES 1)", "STATUS a (1 MESSAGES)", "STATUS a (MESSAGES \"1\")", "STATUS a (MESSAGES NIL)", "STATUS a (MESSAGES 4294967296)", "STATUS a ((MESSAGES 1))", "STATUS a (MESSAGES 1) x", "STATUS (a) (MESSAGES 1)", "STATUS a (MESSAGES 1)(RECENT 1)", "STATUS a (MESSAGES1)", "STATUS a (MESSAGES  1)",
    "1", "1 ", "1 FOO", "EXISTS", "x EXISTS", "-1 EXISTS", "4294967296 EXISTS", "1  EXISTS", "1EXISTS", "\"1\" EXISTS", "1 EXISTS x", "1 2 EXISTS", "1:2 EXISTS", "x RECENT", "1 RECENT x", "RECENT", "NIL EXISTS",
    "0 EXPUNGE", "1 EXPUNGE x", "x EXPUNGE", "* EXPUNGE", "EXPUNGE", "1:2 EXPUNGE",
    "1 FETCH", "1 FETCH ", "1 FETCH ()", "1 FETCH FLAGS ()", "0 FETCH (FLAGS ())", "x FETCH (FLAGS ())", "* FETCH (FLAGS ())", "FETCH (FLAGS ())", "1 FETCH (FLAGS ()", "1 FETCH FLAGS ())", "1 FETCH (FLAGS ()) x", "1 FETCH ((FLAGS ()))", "1 FETCH NIL", "1 FETCH(FLAGS ())", "1:2 FETCH (FLAGS ())",
    "CAPABILITY", "CAPABILITY (x)", "CAPABILITY \"x\"", "CAPABILITY x  y", "CAPABILITY  x", "CAPABILITY x (y)", "CAPABILITY x]", "CAPABILITYx", "CAPABILITY x{", "ENABLED (x)", "ENABLED \"x\"", "ENABLED x  y", "ENABLEDx",
    "QUOTA", "QUOTA a", "QUOTA a ", "QUOTA a (STORAGE)", "QUOTA a (STORAGE 1)", "QUOTA a (STORAGE x 1)", "QUOTA a (STORAGE 1 x)", "QUOTA a (STORAGE 1 -1)", "QUOTA a (1 1 STORAGE)", "QUOTA a STORAGE 1 1", "QUOTA a (STORAGE 1 1", "QUOTA a (STORAGE 1 1) x", "QUOTA (STORAGE 1 1)", "QUOTA a (STORAGE 1 1,MESSAGE 1 1)", "QUOTA a (STORAGE 1 1 MESSAGE 1)", "QUOTA a ((STORAGE 1 1))", "QUOTA a (STORAGE 1 18446744073709551616)", "QUOTA a (STORAGE 1 NIL)", "QUOTAROOT", "QUOTAROOT ", "QUOTAROOT (a)", "QUOTAROOT a (b)", "QUOTAROOT a ", "QUOTAROOT a  b",
    "ID", "ID (\"a\")", "ID (\"a\" \"b\" \"c\")", "ID (NIL \"b\")", "ID (\"a\" b)", "ID \"a\" \"b\"", "ID (\"a\" \"b\"", "ID ((\"a\" \"b\"))", "ID x", "ID (\"a\"\"b\")",
    "NAMESPACE", "NAMESPACE NIL", "NAMESPACE NIL NIL", "NAMESPACE NIL NIL NIL NIL", "NAMESPACE () NIL NIL", "NAMESPACE ((\"a\")) NIL NIL", "NAMESPACE ((\"a\" \"//\")) NIL NIL", "NAMESPACE ((\"a\" \"\")) NIL NIL", "NAMESPACE ((\"a\" /)) NIL NIL", "NAMESPACE ((a \"/\")) NIL NIL", "NAMESPACE (\"a\" \"/\") NIL NIL", "NAMESPACE ((NIL \"/\")) NIL NIL", "NAMESPACE ((\"a\" \"/\" \"X\")) NIL NIL", "NAMESPACE ((\"a\" \"/\" \"X\" ())) NIL NIL", "NAMESPACE ((\"a\" \"/\" \"X\" \"Y\")) NIL NIL", "NAMESPACE ((\"a\" \"/\" NIL (\"Y\"))) NIL NIL", "NAMESPACE ((\"a\" \"/\")(\"b\" \"/\") NIL NIL", "NAMESPACE ((\"a\" \"/\")) NIL", "NAMESPACE NILNILNIL", "NAMESPACE \"a\" NIL NIL", "NAMESPACE NIL NIL NIL x",
    "METADATA", "METADATA a", "METADATA a ", "METADATA a ()", "METADATA a (/p)", "METADATA a (/p x)", "METADATA a (/p \"x\"", "METADATA a (/p \"x\" /q)", "METADATA a ((/p \"x\"))", "METADATA a /p  /q", "METADATA (/p \"x\")",
    "VANISHED", "VANISHED ", "VANISHED x", "VANISHED 0", "VANISHED (EARLIER)", "VANISHED (LATER) 1", "VANISHED EARLIER 1", "VANISHED (EARLIER 1)", "VANISHED 1 (EARLIER)", "VANISHED (EARLIER)1", "VANISHED 1 2", "VANISHED ()", "VANISHED () 1", "VANISHED NIL",
    "OKx", "FOO x", "NOx", "BADx", "BYEx", "O K x", "\"OK\" x", "(OK) x", "1 OK x",
];
/// One item of a FETCH response.
const ITEMS: &[&str] = &[
    "FLAGS", "FLAGS x", "FLAGS (\\*)", "FLAGS NIL", "FLAGS ((x))", "FLAGS (x", "FLAGS()", "UID", "UID 0", "UID x", "UID -1", "UID 4294967296", "UID \"1\"", "UID NIL", "UID (1)", "UID1", "RFC822", "RFC822 x", "RFC822 (\"x\")", "RFC822.SIZE", "RFC822.SIZE x", "RFC822.SIZE -1", "RFC822.SIZE 4294967296", "RFC822.SIZE NIL", "RFC822.SIZE \"1\"", "RFC822.TEXT", "RFC822.TEXT x", "RFC822.HEADER", "RFC822.HEADER x", "RFC822.FOO NIL",
    "INTERNALDATE", "INTERNALDATE x", "INTERNALDATE NIL", "INTERNALDATE \"x\"", "INTERNALDATE \"\"", "INTERNALDATE \"01-Jan-2020\"", "INTERNALDATE 01-Jan-2020", "INTERNALDATE \"1-Jan-2020 00:00:00 +0000\"", "INTERNALDATE \"01-Jan-2020 25:00:00 +0000\"", "INTERNALDATE \"31-Apr-2020 00:00:00 +0000\"",
    "BODY[", "BODY[]", "BODY[ NIL", "BODY[] x", "BODY[] (\"x\")", "BODY[] \"x\" \"y\"", "BODY[]<0.1> NIL", "BODY[]<x> NIL", "BODY[]<> NIL", "BODY[]<-1> NIL", "BODY[]<4294967296> NIL", "BODY[]NIL", "BODY.PEEK[] NIL", "BODY[MIME] NIL", "BODY[0] NIL", "BODY[1.] NIL", "BODY[FOO] NIL", "BODY[HEADER.FIELDS ()] NIL", "BODY[HEADER.FIELDS] NIL", "BODY[] 1", "BODY[TEXT.1] NIL",
    "ENVELOPE", "ENVELOPE NIL", "ENVELOPE ()", "ENVELOPE (NIL)", "ENVELOPE \"x\"", "ENVELOPE (NIL NIL NIL NIL NIL NIL NIL NIL NIL)", "ENVELOPE (NIL NIL NIL NIL NIL NIL NIL NIL NIL NIL NIL)", "ENVELOPE (x NIL NIL NIL NIL NIL NIL NIL NIL NIL)", "ENVELOPE (NIL NIL () NIL NIL NIL NIL NIL NIL NIL)", "ENVELOPE (NIL NIL (()) NIL NIL NIL NIL NIL NIL NIL)", "ENVELOPE (NIL NIL (NIL NIL NIL NIL) NIL NIL NIL NIL NIL NIL NIL)", "ENVELOPE (NIL NIL ((NIL NIL NIL)) NIL NIL NIL NIL NIL NIL NIL)", "ENVELOPE (NIL NIL ((NIL NIL NIL NIL NIL)) NIL NIL NIL NIL NIL NIL NIL)", "ENVELOPE (NIL NIL \"x\" NIL NIL NIL NIL NIL NIL NIL)", "ENVELOPE (NIL NIL NIL NIL NIL NIL NIL NIL NIL (NIL))", "ENVELOPE (NIL NIL NIL NIL NIL NIL NIL NIL (\"x\") NIL)", "ENVELOPE ((NIL) NIL NIL NIL NIL NIL NIL NIL NIL NIL)",
    "BODY", "BODY ()", "BODY NIL", "BODY x", "BODY \"x\"", "BODY (\"TEXT\")", "BODY (\"TEXT\" \"PLAIN\")", "BODY (\"TEXT\" \"PLAIN\" NIL NIL NIL \"7BIT\")", "BODY (\"A\" \"B\" NIL NIL NIL \"7BIT\" x)", "BODY (\"A\" \"B\" NIL NIL NIL \"7BIT\" NIL)", "BODY (\"A\" \"B\" (\"x\") NIL NIL \"7BIT\" 1)", "BODY (\"A\" \"B\" (\"x\" NIL) NIL NIL \"7BIT\" 1)", "BODY (\"A\" \"B\" \"x\" NIL NIL \"7BIT\" 1)", "BODY (A \"B\" NIL NIL NIL \"7BIT\" 1)", "BODY (\"A\" NIL NIL NIL NIL \"7BIT\" 1)", "BODY (NIL \"B\" NIL NIL NIL \"7BIT\" 1)", "BODY (\"A\" \"B\" NIL NIL NIL 7BIT 1)", "BODY (\"A\" \"B\" NIL x NIL \"7BIT\" 1)", "BODY (\"A\" \"B\" NIL NIL x \"7BIT\" 1)", "BODY ((\"A\" \"B\" NIL NIL NIL \"7BIT\" 1))", "BODY ((\"A\" \"B\" NIL NIL NIL \"7BIT\" 1) MIXED)", "BODY ((\"A\" \"B\" NIL NIL NIL \"7BIT\" 1) NIL)", "BODY (() \"MIXED\")", "BODY ((\"A\" \"B\" NIL NIL NIL \"7BIT\" 1) (\"A\" \"B\" NIL NIL NIL \"7BIT\" 1))", "BODY (\"MIXED\" (\"A\" \"B\" NIL NIL NIL \"7BIT\" 1))", "BODY (\"A\" \"B\" NIL NIL NIL \"7BIT\" 4294967296)", "BODY ((\"A\" \"B\" NIL NIL NIL \"7BIT\" 1)\"MIXED\")",
    "BODYSTRUCTURE", "BODYSTRUCTURE ()", "BODYSTRUCTURE NIL", "BODYSTRUCTURE (\"A\" \"B\" NIL NIL NIL \"7BIT\" 1 x)", "BODYSTRUCTURE (\"A\" \"B\" NIL NIL NIL \"7BIT\" 1 NIL x)", "BODYSTRUCTURE (\"A\" \"B\" NIL NIL NIL \"7BIT\" 1 NIL \"x\")", "BODYSTRUCTURE (\"A\" \"B\" NIL NIL NIL \"7BIT\" 1 NIL ())", "BODYSTRUCTURE (\"A\" \"B\" NIL NIL NIL \"7BIT\" 1 NIL (\"x\"))", "BODYSTRUCTURE (\"A\" \"B\" NIL NIL NIL \"7BIT\" 1 NIL (NIL NIL))", "BODYSTRUCTURE (\"A\" \"B\" NIL NIL NIL \"7BIT\" 1 NIL NIL ())", "BODYSTRUCTURE (\"A\" \"B\" NIL NIL NIL \"7BIT\" 1 NIL NIL x)", "BODYSTRUCTURE (\"A\" \"B\" NIL NIL NIL \"7BIT\" 1 NIL NIL NIL x)", "BODYSTRUCTURE (\"A\" \"B\" NIL NIL NIL \"7BIT\" 1 NIL NIL NIL (\"x\"))", "BODYSTRUCTURE (\"A\" \"B\" NIL NIL NIL \"7BIT\" 1 NIL NIL NIL NIL ())", "BODYSTRUCTURE (\"A\" \"B\" NIL NIL NIL \"7BIT\" 1 NIL NIL NIL NIL x)", "BODYSTRUCTURE ((\"A\" \"B\" NIL NIL NIL \"7BIT\" 1) \"MIXED\" x)", "BODYSTRUCTURE ((\"A\" \"B\" NIL NIL NIL \"7BIT\" 1) \"MIXED\" \"x\")", "BODYSTRUCTURE ((\"A\" \"B\" NIL NIL NIL \"7BIT\" 1) \"MIXED\" (\"x\"))", "BODYSTRUCTURE ((\"A\" \"B\" NIL NIL NIL \"7BIT\" 1) \"MIXED\" NIL (\"x\"))",
    "BINARY", "BINARY[1]", "BINARY[1] x", "BINARY[TEXT] NIL", "BINARY[0] NIL", "BINARY[1.] NIL", "BINARY.PEEK[1] NIL", "BINARY.SIZE[1]", "BINARY.SIZE[1] NIL", "BINARY.SIZE[1] x", "BINARY.SIZE[1] -1", "BINARY.SIZE[1]<0> 1", "BINARY.SIZE[TEXT] 1", "MODSEQ", "MODSEQ 1", "MODSEQ ()", "MODSEQ (0)", "MODSEQ (x)", "MODSEQ (1 2)", "MODSEQ NIL", "MODSEQ (-1)", "MODSEQ (18446744073709551616)", "ALL", "FAST", "FULL", "FOO", "FOO x", "NIL", "", "1",
];
/// Whole lines of a server.
const RESPONSE_LINES: &[&str] = &[
    "", " ", "*", "OK x", "*OK x", "** OK x", " * OK x", "*  OK x", "a", "a OK", "a  OK x", "a PREAUTH x", "a BYE x", "a FOO x", "a CAPABILITY x", "a SEARCH", "a FLAGS ()", "a+ OK x", "a( OK x", "\"a\" OK x", "a\" OK x", "a% OK x", "a{ OK x", "a\\ OK x", "+x", "++ x", "+\tx", "a OKx", "(a) OK x", "1 EXISTS", "FLAGS ()", "* OK x\0y", "a OK x\0", "+ x\0y", "* OK x\ry", "a NO x\r",
    "* BYEx", "*", "* ", "**",
];
const GREETINGS: &[&str] = &["", " ", "*", "* ", "* NO x", "* BAD x", "* FOO x", "OK x", "a OK x", "+ OK x", "*OK x", "*  OK x", "** OK x", "* OKx", "* CAPABILITY x", "* FLAGS ()", "* PREAUTHx", "* BYEx", "* OK x\0y", "* OK\tx", "* OK x\ry", " * OK x", "* \"OK\" x", "* 1 EXISTS", "+ x", "* PRE AUTH x"];
const AUTHS: &[&str] = &["x", "AA", "AAA", "A===", "AA=", "AA=A", "AAAAA", "*x", "**", "x*", " AA==", "AA== ", "AA==AA==", "=", "==", "====", "AAAA=", "AAAA==", "A A=", "\"AA==\"", "AA-_", "(AA==)", " ", " *", "* ", "NIL*", "AAAA\0", "\0"];
const IDLES: &[&str] = &["", " ", "DON", "DONEx", " DONE", "DONE ", "DO NE", "\"DONE\"", "a DONE", "(DONE)", "DONE DONE", "D", "*", "NOOP", "a NOOP", "DONE\0"];
/// Response codes that, if they are accepted, are unknown ones.
const CODES: &[&str] = &[
    "ALERT x", "ALERTS", "ALERT ", "BADCHARSET ()", "BADCHARSET (", "BADCHARSET x", "BADCHARSET (x", "BADCHARSET (x) ", "BADCHARSET(x)", "BADCHARSET  (x)", "BADCHARSET (x  y)", "BADCHARSET ( x)", "BADCHARSET (x )", "BADCHARSET ((x))", "BADCHARSET (x) y", "BADCHARSET NIL", "CAPABILITY", "CAPABILITYx", "CAPABILITY (x)", "CAPABILITY x  y", "CAPABILITY  x", "CAPABILITY \"x\"", "PARSE x", "PARSER", "PARSE-", "PERMANENTFLAGS", "PERMANENTFLAGS x", "PERMANENTFLAGS (x", "PERMANENTFLAGS (x  y)", "PERMANENTFLAGS(x)", "PERMANENTFLAGS (x) y", "PERMANENTFLAGS (\\)", "PERMANENTFLAGS (\\**)", "PERMANENTFLAGS NIL", "PERMANENTFLAGS ((x))", "PERMANENTFLAGS ( )",
    "READ-ONLY x", "READ-", "READONLY", "READ-WRITES", "READ ONLY", "TRYCREATE x", "TRYCREATED", "UIDNEXT", "UIDNEXT 0", "UIDNEXT x", "UIDNEXT -1", "UIDNEXT 1 2", "UIDNEXT 4294967296", "UIDNEXT  1", "UIDNEXT1", "UIDNEXT (1)", "UIDNEXT \"1\"", "UIDNEXT 1 ", "UIDNEXT 1x", "UIDVALIDITY", "UIDVALIDITY 0", "UIDVALIDITY x", "UIDVALIDITY 4294967296", "UIDVALIDITY 1 2", "UNSEEN", "UNSEEN 0", "UNSEEN x", "UNSEEN 1 2", "UNSEEN 1:2", "COMPRESSIONACTIVE x", "OVERQUOTA x", "OVERQUOTAS", "TOOBIG x", "TOOBIGGER", "UNKNOWN-CTE x", "UNKNOWN-CT",
    "METADATA", "METADATA LONGENTRIES", "METADATA LONGENTRIES x", "METADATA LONGENTRIES -1", "METADATA MAXSIZE", "METADATA MAXSIZE x", "METADATA TOOMANY x", "METADATA NOPRIVATE 1", "METADATA FOO", "METADATA (TOOMANY)", "METADATA", "METADATATOOMANY", "APPENDUID", "APPENDUID 1", "APPENDUID 0 1", "APPENDUID 1 0", "APPENDUID x 1", "APPENDUID 1 x", "APPENDUID 1  1", "APPENDUID 4294967296 1", "COPYUID", "COPYUID 1", "COPYUID 1 1", "COPYUID 0 1 1", "COPYUID 1 x 1", "COPYUID 1 1 x", "COPYUID 1 0 1", "COPYUID 1 * 1", "COPYUID 1 1 *", "COPYUID 1 1:* 1", "COPYUID 1 1 1 1", "COPYUID 1 1, 1", "COPYUID 1 :1 1", "COPYUID 1 1  1", "COPYUID 1 1 2:*", "COPYUID (1 1 1)", "UIDNOTSTICKY x", "UIDNOTSTICK",
    "REFERRAL", "REFERRAL ", "REFERRALx", "HIGHESTMODSEQ", "HIGHESTMODSEQ 0", "HIGHESTMODSEQ x", "HIGHESTMODSEQ -1", "HIGHESTMODSEQ 1 2", "HIGHESTMODSEQ (1)", "HIGHESTMODSEQ 18446744073709551616", "NOMODSEQ x", "NOMODSEQS", "MODIFIED", "MODIFIED x", "MODIFIED 0", "MODIFIED 1 2", "MODIFIED (1)", "MODIFIED 1,", "MODIFIED 1:", "CLOSED x", "CLOSE", "NIL", "\"ALERT\"", "(ALERT)", " ALERT", "ALERT,", "ALERT\tx",
];

/// What only a quirk accepts; without `* ` and line end.
const NO_QUIRKS: &[&str] = &[
    "CAPABILITY x ", "CAPABILITY x  ", "CAPABILITY IMAP4REV1 ", "CAPABILITY x y ", "SEARCH ", "SEARCH 1 ", "SEARCH 1 2 ", "SEARCH 1  ", "STATUS a (MESSAGES 1) ", "STATUS a ()  ", "STATUS a (MESSAGES 1)  ", "OK", "OK ", "NO ", "BAD ", "BYE ", "OK [ALERT]", "OK [ALERT] ", "NO [PARSE]", "BYE [ALERT]", "OK [UIDNEXT 1]", "OK [X]",
    "QUOTA a (STORAGE  1 1)", "QUOTA a (STORAGE 1  1)", "QUOTA a (STORAGE 1 1 )", "QUOTA a ( STORAGE 1 1)", "QUOTA a (STORAGE 1 1  MESSAGE 1 1)", "ID (\"a\" \"b\" )", "ID (\"a\" \"b\"  )", "ID ( )", "ID (\"a\" \"b\" \"c\" NIL )",
    "1 FETCH (ENVELOPE (NIL NIL ((NIL NIL NIL NIL) (NIL NIL NIL NIL)) NIL NIL NIL NIL NIL NIL NIL))", "1 FETCH (ENVELOPE (NIL NIL ( (NIL NIL NIL NIL)) NIL NIL NIL NIL NIL NIL NIL))", "1 FETCH (ENVELOPE (NIL NIL ((NIL NIL NIL NIL)  (NIL NIL NIL NIL)) NIL NIL NIL NIL NIL NIL NIL))", "1 FETCH (ENVELOPE (NIL NIL NIL NIL NIL NIL ((NIL NIL NIL NIL) (NIL NIL NIL NIL)(NIL NIL NIL NIL)) NIL NIL NIL))",
    "1 FETCH (BODY (\"A\" \"B\" NIL NIL NIL NIL 1))", "1 FETCH (BODYSTRUCTURE (\"A\" \"B\" NIL NIL NIL nil 1))", "1 FETCH (BODY (\"TEXT\" \"B\" NIL NIL NIL NIL 1 1))", "1 FETCH (BODY (\"A\" \"B\" NIL NIL NIL \"7BIT\" -1))", "1 FETCH (BODY (\"TEXT\" \"B\" NIL NIL NIL \"7BIT\" -7 1))", "1 FETCH (BODY (\"TEXT\" \"B\" NIL NIL NIL \"7BIT\" 1 -1))", "1 FETCH (BODY ((\"A\" \"B\" NIL NIL NIL NIL 1) \"MIXED\"))",
];

fn case(r: &mut Rng, s: &str) -> Vec<u8> {
    let mut v = s.as_bytes().to_vec();
    let how = r.below(4);
    let mut quoted = false;
    for i in 0..v.len() {
        if v[i] == b'"' {
            quoted = !quoted;
        }
        if !quoted {
            match how {
                1 => v[i].make_ascii_lowercase(),
                2 if r.bool() => v[i].make_ascii_lowercase(),
                _ => {}
            }
        }
    }
    v
}

pub fn negatives(ctx: &mut Ctx, r: &mut Rng) {
    let tag: &str = *r.pick(&["a", "A1", "x.2", "T", "tag]", "0"]);
    let n = COMMANDS.len() + COMMAND_LINES.len() + DATA.len() + ITEMS.len() + RESPONSE_LINES.len() + GREETINGS.len() + AUTHS.len() + IDLES.len();
    let mut i = r.below(n + CODES.len() + if ANY_QUIRK { 0 } else { NO_QUIRKS.len() });
    macro_rules! take {
        ($t:expr, $f:expr) => {{
            let t = $t;
            if i < t.len() {
                let s: &str = t[i];
                let (kind, bytes): (Kind, Vec<u8>) = $f(s);
                return check(ctx, kind, bytes, s);
            }
            #[allow(unused_assignments)]
            {
                i -= t.len();
            }
        }};
    }
    take!(COMMANDS, |s| (Kind::Command, [tag.as_bytes(), b" ", &case(r, s), b"\r\n"].concat()));
    take!(COMMAND_LINES, |s| (Kind::Command, [&case(r, s)[..], b"\r\n"].concat()));
    take!(DATA, |s| (Kind::Response, [b"* ", &case(r, s)[..], b"\r\n"].concat()));
    take!(ITEMS, |s| {
        let before: &[u8] = *r.pick(&[&b""[..], b"UID 7 ", b"FLAGS (x) ", b"RFC822.SIZE 9 UID 1 "]);
        let after: &[u8] = *r.pick(&[&b""[..], b" UID 7", b" FLAGS (x)"]);
        // An empty item between others is a space too much; alone it is an empty list.
        (Kind::Response, [b"* 3 FETCH (", before, &case(r, s)[..], after, b")\r\n"].concat())
    });
    take!(RESPONSE_LINES, |s| (Kind::Response, [&case(r, s)[..], b"\r\n"].concat()));
    take!(GREETINGS, |s| (Kind::Greeting, [&case(r, s)[..], b"\r\n"].concat()));
    // Base64 has a case.
    take!(AUTHS, |s: &str| (Kind::Auth, [s.as_bytes(), b"\r\n"].concat()));
    take!(IDLES, |s| (Kind::Idle, [&case(r, s)[..], b"\r\n"].concat()));
    if i < CODES.len() {
        return code(ctx, r, CODES[i]);
    }
    i -= CODES.len();
    ctx.c("what-only-quirks-accept");
    take!(NO_QUIRKS, |s| (Kind::Response, [b"* ", &case(r, s)[..], b"\r\n"].concat()));
}
fn check(ctx: &mut Ctx, kind: Kind, bytes: Vec<u8>, what: &str) {
    ctx.current = bytes.clone();
    ctx.eval(&bytes);
    ctx.c("written-by-hand");
    match decode(kind, &bytes) {
        Dec::Failed => {}
        Dec::Ok { rem, msg } => ctx.fail("malformed message is accepted", format!("{kind:?} {what:?}\n{}\ndecoded as {msg:?} remainder {}", show(&bytes), show(&rem)), &bytes),
        d => ctx.fail("complete malformed message is not refused", format!("{kind:?} {what:?}\n{}\n{}", show(&bytes), d.name()), &bytes),
    }
}
fn code(ctx: &mut Ctx, r: &mut Rng, s: &str) {
    let s = case(r, s);
    let (kind, pre): (Kind, &[u8]) = *r.pick(&[
        (Kind::Response, &b"* OK "[..]),
        (Kind::Response, b"* BYE "),
        (Kind::Response, b"a NO "),
        (Kind::Response, b"+ "),
        (Kind::Greeting, b"* OK "),
        (Kind::Greeting, b"* PREAUTH "),
    ]);
    let bytes = [pre, b"[", &s, b"] x\r\n"].concat();
    ctx.current = bytes.clone();
    ctx.eval(&bytes);
    ctx.c("codes-written-by-hand");
    if let Dec::Ok { msg, .. } = decode(kind, &bytes) {
        let want = CodeOther::unvalidated(s.clone());
        let got = crate::p_codec::code_of(&msg);
            ctx.check(matches!(got, Some(Code::Other(o)) if *o == want), "malformed response code is not kept as it is", &bytes, || format!("{got:?}\nwant {want:?}"));
    }
}
