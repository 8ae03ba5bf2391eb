//! Co-generator: every production builds a protocol value through the public constructors and, in the
//! same step, writes two reference wire forms from the RFC grammar:
//!   * `canon`  - the wire form the encoder is expected to emit,
//!   * `styled` - another legal spelling of the same message (letter case, optional parentheses,
//!                alternative date forms, leading zeros, quoted INBOX, ...).
//! The reference forms are written by this file only; no code of the repository is consulted.
use std::{
    collections::BTreeMap,
    num::{NonZeroU32, NonZeroU64},
};

use imap_types::{
    auth::{AuthMechanism, AuthenticateData},
    body::*,
    command::*,
    core::*,
    datetime::{DateTime, NaiveDate},
    envelope::{Address, Envelope},
    extensions::{
        binary::{Literal8, LiteralOrLiteral8},
        compress::CompressionAlgorithm,
        enable::CapabilityEnable,
        quota::{QuotaGet, QuotaSet, Resource},
        sort::{SortAlgorithm, SortCriterion, SortKey},
        thread::{Thread, ThreadingAlgorithm},
        uidplus::{UidElement, UidSet},
    },
    fetch::*,
    flag::*,
    mailbox::{ListCharString, ListMailbox, Mailbox, MailboxOther},
    response::*,
    search::SearchKey,
    secret::Secret,
    sequence::{SeqOrUid, Sequence, SequenceSet},
    status::{StatusDataItem, StatusDataItemName},
};
#[cfg(feature = "ext")]
use imap_types::extensions::{
    condstore_qresync::{AttributeFlag, EntryTypeReq},
    metadata::*,
    namespace::{Namespace, NamespaceResponseExtension},
    utf8::{QuotedUtf8, Utf8Kind},
};

use crate::{
    rng::Rng,
    wire::{Wire, b64},
};

/// The encoder normalises sequence sets.
pub const NORM: bool = cfg!(feature = "q_always_normalize_sequence_sets");
/// The encoder turns `ID ()` into `ID NIL`.
pub const ID_NIL: bool = cfg!(feature = "q_id_empty_to_nil");
/// Some quirk is on.
pub const ANY_QUIRK: bool = cfg!(any(feature = "q_missing_text", feature = "q_rectify_numbers", feature = "q_excessive_space_quota_resource", feature = "q_trailing_space_status", feature = "q_trailing_space_capability", feature = "q_trailing_space_id", feature = "q_trailing_space_search", feature = "q_spaces_between_addresses", feature = "q_empty_continue_req", feature = "q_body_fld_enc_nil_to_empty", feature = "q_always_normalize_sequence_sets", feature = "q_crlf_relaxed", feature = "q_id_empty_to_nil"));
pub const EXT: bool = cfg!(feature = "ext");
pub const RELAXED: bool = cfg!(feature = "q_crlf_relaxed");

pub struct G {
    pub r: Rng,
    pub canon: Wire,
    pub styled: Wire,
    /// Produce the value as it comes back from the wire (sequence sets normalised).
    pub norm: bool,
    pub cov: BTreeMap<&'static str, u64>,
    /// Set when a large payload has been produced (at most one per message).
    big: bool,
    dig: bool,
    /// Prefer hostile string contents.
    pub hostile: bool,
    /// Use only content in the styled wire that is identical to canon (no style variation).
    pub plain: bool,
    /// Structural places in the canonical wire, for grammar-violating mutations.
    pub marks: Vec<Mark>,
    nomark: u32,
    in_code: bool,
    pub code_marks: Vec<Mark>,
    /// Where the response code stands.
    pub code_at: Option<(usize, usize)>,
    /// Write this deviation from the grammar where it fits, and how often that happened.
    pub dev: Option<Dev>,
    pub devs: u32,
}

/// Deviations of real servers that the quirk options rectify.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Dev {
    MissingText,
    NegativeOctets,
    QuotaSpace,
    StatusSpace,
    CapabilitySpace,
    IdSpace,
    SearchSpace,
    AddressSpace,
    EmptyContinue,
    NilEncoding,
}

/// What stands at a place of the canonical wire.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum M {
    /// A keyword from a closed set.
    Kw,
    Nz,
    U32,
    /// The size of a body: one of the quirks rectifies it.
    Octets,
    U64,
    Nz64,
    /// A string: neither NIL nor atom.
    Str,
    /// NIL or string, no atom.
    NStr,
    SeqSet,
    Date,
    DateTime,
    /// A separating space.
    Sp,
    Open,
    Close,
    B64,
    Tag,
    Quoted,
    Atom,
    ListAtom,
    /// A literal announcement.
    Lit,
    /// The inside of a list that may not be empty.
    Inside,
    /// Parts with a structure of their own, as a whole.
    Addresses,
    Params,
    Disposition,
    Languages,
    Namespaces,
    IdParams,
    Delim,
    Section,
    BinSection,
    /// Optional response code and text of a status response.
    RespText,
    /// A set of UIDs without `*`.
    UidSet,
}
#[derive(Clone, Copy, Debug)]
pub struct Mark {
    pub at: usize,
    pub len: usize,
    pub kind: M,
}

pub fn is_atom_char(b: u8) -> bool {
    b > 0x20 && b < 0x7f && !b"(){%*\"\\]".contains(&b) || b == b'}'
}

const ATOM_POOL: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!#$&'+,-./:;<=>?@[^_`|}~";

/// Words of the protocol, as hostile contents of atoms.
const WORDS: &[&str] = &[
    "NIL", "INBOX", "CAPABILITY", "LOGOUT", "NOOP", "ID", "APPEND", "CREATE", "DELETE", "EXAMINE", "LIST", "LSUB", "RENAME", "SELECT", "STATUS", "SUBSCRIBE", "UNSUBSCRIBE", "IDLE", "DONE",
    "ENABLE", "COMPRESS", "GETQUOTA", "GETQUOTAROOT", "SETQUOTA", "SETMETADATA", "GETMETADATA", "NAMESPACE", "LOGIN", "AUTHENTICATE", "STARTTLS", "CHECK", "CLOSE", "EXPUNGE", "COPY", "FETCH",
    "STORE", "UID", "SEARCH", "SORT", "THREAD", "UNSELECT", "MOVE", "ALL", "FAST", "FULL", "FLAGS", "FLAGS.SILENT", "CHARSET", "ANSWERED", "BCC", "BEFORE", "BODY", "CC", "DELETED", "FROM",
    "KEYWORD", "NEW", "OLD", "ON", "RECENT", "SEEN", "SINCE", "SUBJECT", "TEXT", "TO", "HEADER", "LARGER", "NOT", "OR", "SMALLER", "MODSEQ", "ENVELOPE", "INTERNALDATE", "RFC822",
    "RFC822.SIZE", "BODYSTRUCTURE", "BODY.PEEK", "BINARY", "BINARY.SIZE", "MESSAGES", "UIDNEXT", "UIDVALIDITY", "UNSEEN", "OK", "NO", "BAD", "BYE", "PREAUTH", "ALERT", "VANISHED", "EARLIER",
    "CONDSTORE", "QRESYNC", "CHANGEDSINCE", "UNCHANGEDSINCE", "MAXSIZE", "DEPTH", "infinity", "QUOTA", "QUOTAROOT", "EXISTS", "ENABLED", "METADATA", "REVERSE", "REFERENCES", "STORAGE", "MIME",
    "HEADER.FIELDS", "HEADER.FIELDS.NOT", "INLINE", "ATTACHMENT", "MESSAGE", "MIXED", "US-ASCII", "UTF-8", "7BIT", "BASE64",
];

impl G {
    pub fn new(seed: u64, norm: bool) -> Self {
        let mut r = Rng::new(seed);
        let hostile = r.chance(1, 3);
        G {
            r,
            canon: Wire::default(),
            styled: Wire::default(),
            norm,
            cov: BTreeMap::new(),
            big: false,
            dig: false,
            hostile,
            plain: false,
            marks: Vec::new(),
            nomark: 0,
            in_code: false,
            code_marks: Vec::new(),
            code_at: None,
            dev: None,
            devs: 0,
        }
    }
    /// Whether to deviate here.
    fn dev(&mut self, d: Dev) -> bool {
        let yes = self.dev == Some(d) && (self.devs == 0 || self.r.bool());
        if yes {
            self.devs += 1;
        }
        yes
    }
    pub fn c(&mut self, name: &'static str) {
        *self.cov.entry(name).or_insert(0) += 1;
    }

    // ----- writers -----
    pub fn both(&mut self, b: &[u8]) {
        self.canon.push(b);
        self.styled.push(b);
    }
    pub fn s(&mut self, b: &str) {
        if (self.nomark == 0 || self.in_code) && b.len() < 4 && b.bytes().all(|c| b" ()".contains(&c)) {
            for (i, c) in b.bytes().enumerate() {
                let kind = match c {
                    b'(' => M::Open,
                    b')' => M::Close,
                    _ => M::Sp,
                };
                self.push_mark(Mark {
                    at: self.canon.len + i,
                    len: 1,
                    kind,
                });
            }
        }
        self.both(b.as_bytes());
    }
    /// Record that the next `len` bytes of the canonical wire are a `kind`.
    pub fn mark(&mut self, kind: M, len: usize) {
        self.push_mark(Mark { at: self.canon.len, len, kind });
    }
    fn push_mark(&mut self, m: Mark) {
        if self.in_code {
            self.code_marks.push(m);
        } else if self.nomark == 0 {
            self.marks.push(m);
        }
    }
    /// Keyword out of a closed set: canonical spelling as given, styled in random letter case.
    pub fn kw(&mut self, k: &str) {
        self.mark(M::Kw, k.len());
        self.kwo(k);
    }
    /// Keyword out of an open set.
    pub fn kwo(&mut self, k: &str) {
        self.canon.push(k.as_bytes());
        let mode = self.r.below(4);
        let bits = self.r.next();
        let styled: Vec<u8> = k
            .bytes()
            .enumerate()
            .map(|(i, b)| match mode {
                0 => b,
                1 => b.to_ascii_lowercase(),
                2 => b.to_ascii_uppercase(),
                _ => {
                    if bits >> (i % 64) & 1 == 1 {
                        b.to_ascii_uppercase()
                    } else {
                        b.to_ascii_lowercase()
                    }
                }
            })
            .collect();
        if self.plain {
            self.styled.push(k.as_bytes());
        } else {
            self.styled.push(&styled);
        }
    }
    pub fn style(&mut self, num: usize, den: usize) -> bool {
        let c = self.r.chance(num, den);
        c && !self.plain
    }
    pub fn sp(&mut self) {
        self.s(" ");
    }
    pub fn crlf(&mut self) {
        self.both(b"\r\n");
    }

    // ----- numbers -----
    pub fn raw_u32(&mut self) -> u32 {
        match self.r.below(6) {
            0 => self.r.below(4) as u32,
            1 => self.r.below(100) as u32,
            2 => 10u32.pow(self.r.below(10) as u32) - self.r.below(2) as u32,
            3 => *self.r.pick(&[
                u32::MAX,
                u32::MAX - 1,
                0x8000_0000,
                0x7fff_ffff,
                255,
                256,
                65535,
                65536,
            ]),
            _ => self.r.next() as u32,
        }
    }
    pub fn raw_u64(&mut self) -> u64 {
        match self.r.below(4) {
            0 => self.raw_u32() as u64,
            1 => *self.r.pick(&[u64::MAX, u64::MAX - 1, i64::MAX as u64, 1 << 32, (1 << 32) - 1]),
            2 => 10u64.pow(self.r.below(20) as u32),
            _ => self.r.next() >> self.r.below(40),
        }
    }
    pub fn wnum(&mut self, v: u64) {
        self.canon.push(v.to_string().as_bytes());
        if self.style(1, 12) {
            self.c("style:leading-zero");
            let z = self.r.range(1, 4);
            self.styled.push(format!("{}{v}", "0".repeat(z)).as_bytes());
        } else {
            self.styled.push(v.to_string().as_bytes());
        }
    }
    pub fn num(&mut self) -> u32 {
        let v = self.raw_u32();
        self.mark(M::U32, v.to_string().len());
        self.wnum(v as u64);
        v
    }
    pub fn num64(&mut self) -> u64 {
        let v = self.raw_u64();
        self.mark(M::U64, v.to_string().len());
        self.wnum(v);
        v
    }
    pub fn raw_nz(&mut self) -> NonZeroU32 {
        NonZeroU32::new(self.raw_u32()).unwrap_or(NonZeroU32::new(1).unwrap())
    }
    pub fn nz(&mut self) -> NonZeroU32 {
        let v = self.raw_nz();
        self.mark(M::Nz, v.to_string().len());
        self.s(&v.to_string());
        v
    }
    #[allow(unused)]
    pub fn nz64(&mut self) -> NonZeroU64 {
        let v = NonZeroU64::new(self.raw_u64()).unwrap_or(NonZeroU64::new(1).unwrap());
        self.mark(M::Nz64, v.to_string().len());
        self.s(&v.to_string());
        v
    }

    // ----- raw content -----
    pub fn len(&mut self, max: usize) -> usize {
        match self.r.below(5) {
            0 => 1,
            1 => self.r.range(1, 3),
            _ => self.r.range(1, max),
        }
    }
    /// Whether this element has to nest further: one chain of elements down to the deepest level that is supported.
    fn dig(&mut self, depth: usize) -> bool {
        let dig = std::mem::take(&mut self.dig);
        if dig && depth == 0 {
            self.c("nested-to-the-limit");
        }
        dig && depth > 0
    }
    /// Rarely, and at most once per message: something large.
    pub fn large(&mut self, den: usize) -> bool {
        if self.big || !self.r.chance(1, den) {
            return false;
        }
        self.big = true;
        self.c("large-part");
        true
    }
    /// A name that is almost, but not, one of `known`.
    pub fn near(&mut self, known: &[&str]) -> String {
        loop {
            let mut w = self.r.pick(known).to_string();
            let c = *self.r.pick(b"XAESsx0179-./=_D") as char;
            match self.r.below(5) {
                0 | 1 => w.push(c),
                2 if w.len() > 1 => {
                    w.pop();
                }
                3 => w.insert(0, c),
                _ => {
                    let at = self.r.below(w.len());
                    w.replace_range(at..at + 1, &c.to_string());
                }
            }
            if self.r.bool() {
                let bits = self.r.next();
                w = w.chars().enumerate().map(|(i, c)| if bits >> (i % 64) & 1 == 1 { c.to_ascii_lowercase() } else { c }).collect();
            }
            if !known.iter().any(|k| k.eq_ignore_ascii_case(&w)) {
                self.c("near-name");
                return w;
            }
        }
    }
    pub fn raw_atom(&mut self) -> String {
        if self.r.chance(1, 16) {
            let w = self.r.pick(WORDS).to_string();
            return if self.r.bool() { self.near(&[&w]) } else { w };
        }
        if self.r.chance(1, 12) {
            let w = *self.r.pick(&[
                "NIL", "INBOX", "inbox", "A", "1", "0", "UID", "all", "FLAGS", "TEXT", "OK", "+", "-", "~", "CHARSET", "[", "4294967296", "nil",
                "<>", "=", "}", "BODY[", "DONE", "1:2", "REVERSE", "TEXT", "MODSEQ", "MESSAGE",
            ]);
            return w.to_string();
        }
        let n = if self.large(300) { self.r.range(60, 1200) } else { self.len(12) };
        (0..n).map(|_| *self.r.pick(ATOM_POOL) as char).collect()
    }
    pub fn raw_text(&mut self, min: usize) -> String {
        const SPICE: &[&str] = &[
            "{5}", "{3+}", "~{2}", "\"", "\\", "\\\"", "\\\\", "[", "]", "[ALERT]", " ", "  ", "NIL", "(", ")", "%", "*", "\t", "\x01", "\x7f", "{", "}", "INBOX", "+", "= ", "{0}", "A1 OK x", "\\{5}",
            "{18446744073709551616}",
        ];
        let mut s = String::new();
        let mut n = if min == 0 && self.r.chance(1, 8) { 0 } else { self.len(14).max(min) };
        if n > 0 && self.large(200) {
            n = self.r.range(100, 5000);
        }
        while s.len() < n {
            if self.r.chance(if self.hostile { 2 } else { 1 }, 4) {
                s.push_str(*self.r.pick(SPICE));
            } else if self.r.chance(1, 10) {
                let mut b = self.r.range(1, 0x7f) as u8;
                if b == b'\r' || b == b'\n' {
                    b = b'x';
                }
                s.push(b as char);
            } else {
                s.push(*self.r.pick(b"abcdefgXYZ0123456789.-/_") as char);
            }
        }
        s
    }
    pub fn raw_literal(&mut self, nul: bool) -> Vec<u8> {
        const SPICE: &[&[u8]] = &[
            b"\r\n", b"\n", b"\r", b"{5}\r\n", b"{3+}\r\n", b"A1 NOOP\r\n", b"* OK x\r\n", b"\"", b"\\", b"\xff", b"\x80\x81", b"\xc3\xa4", b")", b"~{2}", b"{0}\r\n",
            b" ", b"{2}", b"\r\r\n", b")\r\n",
        ];
        let n = match self.r.below(10) {
            0 => 0,
            1 => self.r.range(1, 2),
            2 if self.large(20) => {
                if self.r.chance(1, 20) {
                    self.r.range(65_000, 140_000)
                } else {
                    self.r.range(300, 9000)
                }
            }
            _ => self.r.range(1, 18),
        };
        let mut v = Vec::new();
        while v.len() < n {
            if self.r.chance(if self.hostile { 2 } else { 1 }, 4) {
                v.extend_from_slice(self.r.pick(SPICE));
            } else if self.r.chance(1, 8) {
                let b = self.r.below(256) as u8;
                if b != 0 || nul {
                    v.push(b);
                }
            } else {
                v.push(*self.r.pick(b"abcdefgXYZ0123456789.-/_"));
            }
        }
        v
    }
    pub fn raw_mode(&mut self) -> LiteralMode {
        if self.r.bool() { LiteralMode::Sync } else { LiteralMode::NonSync }
    }

    // ----- core strings -----
    pub fn wquoted(&mut self, s: &str) {
        let mut out = vec![b'"'];
        for b in s.bytes() {
            if b == b'"' || b == b'\\' {
                out.push(b'\\');
            }
            out.push(b);
        }
        out.push(b'"');
        self.mark(M::Quoted, out.len());
        self.both(&out);
    }
    pub fn wliteral(&mut self, data: &[u8], mode: LiteralMode, eight: bool) {
        let n = data.len().to_string().len() + if mode == LiteralMode::NonSync { 3 } else { 2 } + eight as usize;
        self.mark(M::Lit, n);
        self.canon.literal(data, mode, eight, 0);
        let z = if self.style(1, 15) {
            self.c("style:literal-leading-zero");
            self.r.range(1, 3)
        } else {
            0
        };
        self.styled.literal(data, mode, eight, z);
    }
    pub fn atom(&mut self) -> Atom<'static> {
        let a = self.raw_atom();
        self.mark(M::Atom, a.len());
        self.s(&a);
        Atom::try_from(a).unwrap()
    }
    pub fn literal(&mut self) -> Literal<'static> {
        let d = self.raw_literal(false);
        let m = self.raw_mode();
        self.c(if m == LiteralMode::Sync { "literal:sync" } else { "literal:nonsync" });
        if d.is_empty() {
            self.c("literal:empty");
        }
        self.wliteral(&d, m, false);
        let mut l = Literal::try_from(d).unwrap();
        l.set_mode(m);
        l
    }
    pub fn literal8(&mut self) -> Literal8<'static> {
        let d = self.raw_literal(true);
        let m = self.raw_mode();
        self.c("literal8");
        self.wliteral(&d, m, true);
        Literal8 { data: d.into(), mode: m }
    }
    pub fn quoted(&mut self) -> Quoted<'static> {
        let t = self.raw_text(0);
        self.wquoted(&t);
        Quoted::try_from(t).unwrap()
    }
    pub fn istring(&mut self) -> IString<'static> {
        match self.r.below(if EXT { 8 } else { 7 }) {
            0 | 1 => {
                self.c("string:literal");
                IString::Literal(self.literal())
            }
            #[cfg(feature = "ext")]
            7 => {
                self.c("string:utf8");
                let mut t = self.raw_text(0);
                let at = self.r.below(t.len() + 1);
                let u = *self.r.pick(&["ä", "✓", "𝄞", "\u{80}", "\u{7ff}"]);
                t.insert_str(at, u);
                self.wquoted(&t);
                IString::QuotedUtf8(QuotedUtf8(t.into()))
            }
            _ => {
                self.c("string:quoted");
                IString::Quoted(self.quoted())
            }
        }
    }
    /// Where neither NIL nor an atom is allowed.
    pub fn string(&mut self) -> IString<'static> {
        let at = self.canon.len;
        let v = self.istring();
        self.mark_since(M::Str, at);
        v
    }
    fn mark_since(&mut self, kind: M, at: usize) {
        let len = self.canon.len - at;
        self.push_mark(Mark { at, len, kind });
    }
    pub fn nstring(&mut self) -> NString<'static> {
        let at = self.canon.len;
        let v = self.nstring_();
        self.mark_since(M::NStr, at);
        v
    }
    fn nstring_(&mut self) -> NString<'static> {
        if self.r.chance(1, 3) {
            self.c("nstring:nil");
            self.kw("NIL");
            NString(None)
        } else {
            NString(Some(self.istring()))
        }
    }
    pub fn nstring8(&mut self) -> NString8<'static> {
        if self.r.bool() {
            NString8::Literal8(self.literal8())
        } else {
            NString8::NString(self.nstring())
        }
    }
    pub fn astring(&mut self) -> AString<'static> {
        if self.r.bool() {
            self.c("astring:atom");
            let mut a = self.raw_atom();
            if self.r.chance(1, 4) {
                let at = self.r.below(a.len() + 1);
                a.insert(at, ']');
            }
            self.mark(M::Atom, a.len());
            self.s(&a);
            AString::Atom(AtomExt::try_from(a).unwrap())
        } else {
            self.c("astring:string");
            AString::String(self.istring())
        }
    }
    pub fn mailbox(&mut self) -> Mailbox<'static> {
        if self.r.chance(1, 6) {
            self.c("mailbox:inbox");
            self.canon.push(b"INBOX");
            let bits = self.r.below(32);
            let name: Vec<u8> = b"inbox"
                .iter()
                .enumerate()
                .map(|(i, b)| if bits >> i & 1 == 1 { b.to_ascii_uppercase() } else { *b })
                .collect();
            let k = self.r.below(4);
            if self.plain {
                self.styled.push(b"INBOX");
            } else {
                match k {
                    0 => {
                        self.styled.push(b"\"");
                        self.styled.push(&name);
                        self.styled.push(b"\"");
                    }
                    1 => self.styled.literal(&name, LiteralMode::NonSync, false, 0),
                    _ => self.styled.push(&name),
                }
            }
            return Mailbox::Inbox;
        }
        // Retry until the content is not INBOX.
        loop {
            let save = (self.canon.clone(), self.styled.clone(), self.marks.len());
            let a = self.astring();
            if a.as_ref().eq_ignore_ascii_case(b"inbox") {
                self.canon = save.0;
                self.styled = save.1;
                self.marks.truncate(save.2);
                continue;
            }
            return Mailbox::Other(MailboxOther::try_from(a).unwrap());
        }
    }
    pub fn list_mailbox(&mut self) -> ListMailbox<'static> {
        if self.r.bool() {
            let mut a = self.raw_atom();
            for _ in 0..self.r.below(3) {
                let at = self.r.below(a.len() + 1);
                let c = *self.r.pick(&['%', '*', ']']);
                a.insert(at, c);
            }
            self.mark(M::ListAtom, a.len());
            self.s(&a);
            ListMailbox::Token(ListCharString::try_from(a).unwrap())
        } else {
            ListMailbox::String(self.istring())
        }
    }
    pub fn tag(&mut self) -> Tag<'static> {
        let n = if self.large(300) { self.r.range(20, 600) } else { self.len(8) };
        let t: String = (0..n)
            .map(|_| {
                let c = *self.r.pick(ATOM_POOL);
                if c == b'+' || self.r.chance(1, 20) { ']' } else { c as char }
            })
            .collect();
        self.mark(M::Tag, t.len());
        self.s(&t);
        Tag::try_from(t).unwrap()
    }
    pub fn charset(&mut self) -> Charset<'static> {
        if self.r.bool() {
            Charset::Atom(self.atom())
        } else {
            Charset::Quoted(self.quoted())
        }
    }
    pub fn text(&mut self, has_code: bool) -> Text<'static> {
        let mut t = self.raw_text(1);
        if !has_code && t.starts_with('[') {
            t.insert(0, 'x');
        }
        self.both(t.as_bytes());
        Text::try_from(t).unwrap()
    }
    pub fn qchar(&mut self) -> QuotedChar {
        let c = match self.r.below(4) {
            0 => *self.r.pick(b"/.\\\"| "),
            1 => self.r.range(0x01, 0x7f) as u8,
            _ => self.r.range(0x21, 0x7e) as u8,
        };
        let c = if c == b'\r' || c == b'\n' { b'/' } else { c };
        self.wquoted(&(c as char).to_string());
        QuotedChar::try_from(c as char).unwrap()
    }
    pub fn delim(&mut self) -> Option<QuotedChar> {
        let at = self.canon.len;
        let v = self.delim_();
        self.mark_since(M::Delim, at);
        v
    }
    fn delim_(&mut self) -> Option<QuotedChar> {
        if self.r.chance(1, 4) {
            self.kw("NIL");
            None
        } else {
            Some(self.qchar())
        }
    }
    /// A small number, now and then above the usual range.
    pub fn few(&mut self, lo: usize, hi: usize) -> usize {
        match self.r.below(80) {
            0 => self.r.range(hi, hi + 14),
            1..=4 => self.r.range(hi, hi + 4),
            _ => self.r.range(lo, hi),
        }
    }
    pub fn list<T>(&mut self, lo: usize, hi: usize, sep: &str, mut f: impl FnMut(&mut G) -> T) -> Vec<T> {
        let n = if lo < hi && self.large(300) {
            self.r.range(hi, 300)
        } else if lo < hi {
            self.few(lo, hi)
        } else {
            lo
        };
        let mut i = 0;
        self.times(n, |g| {
            if i > 0 {
                g.s(sep);
            }
            i += 1;
            f(g)
        })
    }
    /// So many parts. Now and then one is the same as an earlier one, or begins like it.
    pub fn times<T>(&mut self, n: usize, mut f: impl FnMut(&mut G) -> T) -> Vec<T> {
        let mut v = Vec::new();
        let mut first = self.r.clone();
        for i in 0..n {
            let part = match self.r.below(if i > 0 { 16 } else { 1 }) {
                how @ (1 | 2) => {
                    let mut again = first.clone();
                    if how == 1 {
                        self.c("part-repeated");
                    } else {
                        self.c("part-resembling");
                        again = again.forked(self.r.below(16), self.r.next());
                    }
                    let here = std::mem::replace(&mut self.r, again);
                    let part = f(self);
                    self.r = here;
                    part
                }
                how => {
                    if i == 0 || how % 2 == 0 {
                        first = self.r.clone();
                    }
                    f(self)
                }
            };
            v.push(part);
        }
        v
    }
    pub fn vec1<T: Clone>(&mut self, hi: usize, sep: &str, f: impl FnMut(&mut G) -> T) -> Vec1<T> {
        let at = self.canon.len;
        let v = self.list(1, hi, sep, f);
        self.mark_since(M::Inside, at);
        Vec1::try_from(v).ok().unwrap()
    }
    /// The same as an ordinary vector.
    pub fn list1<T>(&mut self, hi: usize, sep: &str, f: impl FnMut(&mut G) -> T) -> Vec<T> {
        let at = self.canon.len;
        let v = self.list(1, hi, sep, f);
        self.mark_since(M::Inside, at);
        v
    }

    // ----- sequence sets -----
    pub fn raw_seq_or_uid(&mut self) -> SeqOrUid {
        match self.r.below(8) {
            0 => SeqOrUid::Asterisk,
            1..=5 => SeqOrUid::Value(NonZeroU32::new(self.r.range(1, 25) as u32).unwrap()),
            6 => SeqOrUid::Value(NonZeroU32::new((self.raw_u32() % 4_294_967_290).max(1)).unwrap()),
            _ => SeqOrUid::Value(NonZeroU32::new(10u32.pow(self.r.below(10) as u32)).unwrap()),
        }
    }
    pub fn raw_sequence_set(&mut self) -> Vec<Sequence> {
        let n = match self.r.below(4) {
            0 | 1 => 1,
            2 => self.r.range(1, 4),
            _ if self.large(60) => self.r.range(30, 400),
            _ => self.r.range(1, 8),
        };
        self.times(n, |g| {
                if g.r.bool() {
                    Sequence::Single(g.raw_seq_or_uid())
                } else {
                    Sequence::Range(g.raw_seq_or_uid(), g.raw_seq_or_uid())
                }
            })
    }
    pub fn sequence_set(&mut self) -> SequenceSet {
        let raw = self.raw_sequence_set();
        let normed = normalise_model(&raw);
        let c = if NORM { &normed } else { &raw };
        if raw.len() > 1 && normed.len() < raw.len() {
            self.c("seqset:merged");
        }
        self.mark(M::SeqSet, seq_text(c).len());
        self.canon.push(seq_text(c).as_bytes());
        self.styled.push(seq_text(&raw).as_bytes());
        let v = if self.norm && NORM { normed } else { raw };
        SequenceSet(Vec1::try_from(v).unwrap())
    }

    // ----- dates -----
    pub fn raw_ymd(&mut self) -> (i32, u32, u32) {
        loop {
            let y = match self.r.below(4) {
                0 => *self.r.pick(&[0, 1, 4, 9, 99, 100, 400, 999, 1000, 1900, 1970, 2000, 2024, 9999]),
                1 => self.r.below(10000) as i32,
                _ => self.r.range(1970, 2040) as i32,
            };
            let m = self.r.range(1, 12) as u32;
            let d = match self.r.below(3) {
                0 => self.r.range(1, 9) as u32,
                1 => self.r.range(28, 31) as u32,
                _ => self.r.range(1, 31) as u32,
            };
            if d <= days_in_month(y, m) {
                return (y, m, d);
            }
        }
    }
    pub fn date(&mut self) -> NaiveDate {
        let (y, m, d) = self.raw_ymd();
        let mon = MONTHS[m as usize - 1];
        self.mark(M::Date, 13);
        self.canon.push(format!("\"{d:02}-{mon}-{y:04}\"").as_bytes());
        let quoted = !self.style(1, 2);
        let two = d > 9 || !self.style(1, 2);
        let case = self.r.below(3);
        let mon_s = if self.plain { mon.to_string() } else { recase(mon, case) };
        let q = if quoted { "\"" } else { "" };
        let ds = if two { format!("{d:02}") } else { format!("{d}") };
        self.styled.push(format!("{q}{ds}-{mon_s}-{y:04}{q}").as_bytes());
        if !quoted {
            self.c("style:date-unquoted");
        }
        NaiveDate::try_from(chrono::NaiveDate::from_ymd_opt(y, m, d).unwrap()).unwrap()
    }
    pub fn datetime(&mut self) -> DateTime {
        use chrono::TimeZone;
        let (y, m, d) = self.raw_ymd();
        // Keep the local date representable after conversion to UTC.
        let (h, mi, s) = (self.r.below(24) as u32, self.r.below(60) as u32, self.r.below(60) as u32);
        let zh = match self.r.below(3) {
            0 => 0,
            1 => self.r.range(0, 14),
            _ => self.r.range(0, 23),
        } as i32;
        let zm = if self.r.bool() { 0 } else { self.r.range(0, 59) } as i32;
        let east = self.r.bool() || (zh == 0 && zm == 0);
        let off = (zh * 3600 + zm * 60) * if east { 1 } else { -1 };
        let mon = MONTHS[m as usize - 1];
        let tail = format!("{y:04} {h:02}:{mi:02}:{s:02} {}{zh:02}{zm:02}", if east { '+' } else { '-' });
        self.mark(M::DateTime, 28);
        self.canon.push(format!("\"{d:02}-{mon}-{tail}\"").as_bytes());
        let space = d < 10 && self.style(1, 2);
        let case = self.r.below(3);
        let mon_s = if self.plain { mon.to_string() } else { recase(mon, case) };
        let ds = if space {
            self.c("style:datetime-space-day");
            format!(" {d}")
        } else {
            format!("{d:02}")
        };
        self.styled.push(format!("\"{ds}-{mon_s}-{tail}\"").as_bytes());
        let naive = chrono::NaiveDate::from_ymd_opt(y, m, d).unwrap().and_hms_opt(h, mi, s).unwrap();
        let dt = chrono::FixedOffset::east_opt(off).unwrap().from_local_datetime(&naive).unwrap();
        DateTime::try_from(dt).unwrap()
    }

    // ----- flags -----
    pub fn flag_ext_name(&mut self) -> String {
        const KNOWN: &[&str] = &["answered", "deleted", "draft", "flagged", "seen", "recent", "noinferiors", "noselect", "marked", "unmarked"];
        loop {
            let a = if self.r.chance(1, 3) { self.near(KNOWN) } else { self.raw_atom() };
            if !KNOWN
                .contains(&a.to_ascii_lowercase().as_str())
            {
                return a;
            }
        }
    }
    pub fn flag(&mut self) -> Flag<'static> {
        match self.r.below(7) {
            0 => {
                self.kwo("\\Answered");
                Flag::Answered
            }
            1 => {
                self.kwo("\\Deleted");
                Flag::Deleted
            }
            2 => {
                self.kwo("\\Draft");
                Flag::Draft
            }
            3 => {
                self.kwo("\\Flagged");
                Flag::Flagged
            }
            4 => {
                self.kwo("\\Seen");
                Flag::Seen
            }
            5 => {
                self.c("flag:extension");
                let a = self.flag_ext_name();
                self.s("\\");
                self.s(&a);
                Flag::system(Atom::try_from(a).unwrap())
            }
            _ => {
                self.c("flag:keyword");
                Flag::Keyword(self.atom())
            }
        }
    }
    pub fn flag_fetch(&mut self) -> FlagFetch<'static> {
        if self.r.chance(1, 6) {
            self.kwo("\\Recent");
            FlagFetch::Recent
        } else {
            FlagFetch::Flag(self.flag())
        }
    }
    pub fn flag_perm(&mut self) -> FlagPerm<'static> {
        if self.r.chance(1, 6) {
            self.s("\\*");
            FlagPerm::Asterisk
        } else {
            FlagPerm::Flag(self.flag())
        }
    }
    pub fn flag_name_attr(&mut self) -> FlagNameAttribute<'static> {
        match self.r.below(5) {
            0 => {
                self.kwo("\\Noinferiors");
                FlagNameAttribute::Noinferiors
            }
            1 => {
                self.kwo("\\Noselect");
                FlagNameAttribute::Noselect
            }
            2 => {
                self.kwo("\\Marked");
                FlagNameAttribute::Marked
            }
            3 => {
                self.kwo("\\Unmarked");
                FlagNameAttribute::Unmarked
            }
            _ => {
                let a = self.flag_ext_name();
                self.s("\\");
                self.s(&a);
                FlagNameAttribute::from(Atom::try_from(a).unwrap())
            }
        }
    }

    // ----- registries -----
    pub fn auth_mechanism(&mut self) -> AuthMechanism<'static> {
        let i = self.r.below(AUTHS.len() + 2);
        if let Some((n, v)) = AUTHS.get(i) {
            self.kwo(n);
            v.clone()
        } else {
            loop {
                let names: Vec<&str> = AUTHS.iter().map(|(n, _)| *n).collect();
                let a = if self.r.bool() { self.near(&names) } else { self.raw_atom() };
                if AUTHS.iter().any(|(n, _)| n.eq_ignore_ascii_case(&a)) {
                    continue;
                }
                self.s(&a);
                return AuthMechanism::from(Atom::try_from(a).unwrap());
            }
        }
    }
    pub fn resource(&mut self) -> Resource<'static> {
        match self.r.below(6) {
            0 => {
                self.kwo("STORAGE");
                Resource::Storage
            }
            1 => {
                self.kwo("MESSAGE");
                Resource::Message
            }
            2 => {
                self.kwo("MAILBOX");
                Resource::Mailbox
            }
            3 => {
                self.kwo("ANNOTATION-STORAGE");
                Resource::AnnotationStorage
            }
            _ => {
                let a = if self.r.bool() {
                    self.near(&["STORAGE", "MESSAGE", "MAILBOX", "ANNOTATION-STORAGE"])
                } else {
                    format!("X-{}", self.raw_atom())
                };
                self.s(&a);
                Resource::from(Atom::try_from(a).unwrap())
            }
        }
    }
    pub fn sort_algorithm(&mut self) -> SortAlgorithm<'static> {
        if self.r.bool() {
            self.kwo("DISPLAY");
            SortAlgorithm::Display
        } else {
            let a = if self.r.bool() { self.near(&["DISPLAY"]) } else { format!("X{}", self.raw_atom()) };
            self.s(&a);
            SortAlgorithm::from(Atom::try_from(a).unwrap())
        }
    }
    pub fn thread_algorithm(&mut self) -> ThreadingAlgorithm<'static> {
        match self.r.below(3) {
            0 => {
                self.kwo("ORDEREDSUBJECT");
                ThreadingAlgorithm::OrderedSubject
            }
            1 => {
                self.kwo("REFERENCES");
                ThreadingAlgorithm::References
            }
            _ => {
                let a = if self.r.bool() {
                    self.near(&["ORDEREDSUBJECT", "REFERENCES"])
                } else {
                    format!("X{}", self.raw_atom())
                };
                self.s(&a);
                ThreadingAlgorithm::from(Atom::try_from(a).unwrap())
            }
        }
    }
    pub fn capability(&mut self) -> Capability<'static> {
        self.c("capability");
        let caps = plain_capabilities();
        let i = self.r.below(caps.len() + 9);
        if let Some((n, v)) = caps.get(i) {
            self.kwo(n);
            return v.clone();
        }
        match i - caps.len() {
            0 | 1 => {
                self.kwo("AUTH=");
                Capability::Auth(self.auth_mechanism())
            }
            2 => {
                self.kwo("COMPRESS=DEFLATE");
                Capability::Compress {
                    algorithm: CompressionAlgorithm::Deflate,
                }
            }
            3 => {
                self.kwo("QUOTA=RES-");
                Capability::QuotaRes(self.resource())
            }
            4 => {
                self.kwo("SORT=");
                Capability::Sort(Some(self.sort_algorithm()))
            }
            5 => {
                self.kwo("THREAD=");
                Capability::Thread(self.thread_algorithm())
            }
            _ => {
                let a = if self.r.bool() {
                    let mut names: Vec<&str> = caps.iter().map(|(n, _)| *n).collect();
                    names.extend(["COMPRESS=DEFLATE", "UTF8=ACCEPT"]);
                    loop {
                        let a = self.near(&names);
                        let u = a.to_ascii_uppercase();
                        if !["AUTH=", "SORT=", "THREAD=", "QUOTA=RES-"].iter().any(|p| u.starts_with(p)) {
                            break a;
                        }
                    }
                } else {
                    format!("X{}", self.raw_atom())
                };
                self.s(&a);
                Capability::from(Atom::try_from(a).unwrap())
            }
        }
    }
    pub fn capability_enable(&mut self) -> CapabilityEnable<'static> {
        #[cfg(feature = "ext")]
        match self.r.below(8) {
            0 => {
                self.kwo("CONDSTORE");
                return CapabilityEnable::CondStore;
            }
            1 => {
                self.kwo("METADATA");
                return CapabilityEnable::Metadata;
            }
            2 => {
                self.kwo("METADATA-SERVER");
                return CapabilityEnable::MetadataServer;
            }
            3 => {
                self.kwo("UTF8=ACCEPT");
                return CapabilityEnable::Utf8(Utf8Kind::Accept);
            }
            4 => {
                self.kwo("UTF8=ONLY");
                return CapabilityEnable::Utf8(Utf8Kind::Only);
            }
            _ => {}
        }
        let a = if self.r.bool() {
            self.near(&["CONDSTORE", "METADATA", "METADATA-SERVER", "UTF8=ACCEPT", "UTF8=ONLY"])
        } else {
            format!("X{}", self.raw_atom())
        };
        self.s(&a);
        CapabilityEnable::from(Atom::try_from(a).unwrap())
    }

    // ----- search -----
    pub fn search_key(&mut self, depth: usize) -> SearchKey<'static> {
        let n = if EXT { 39 } else { 38 };
        let dig = self.dig(depth);
        let mut k = if dig { self.r.range(34, 36) } else { self.r.below(n) };
        if depth == 0 && matches!(k, 34 | 35 | 36) {
            k = 0;
        }
        macro_rules! simple {
            ($k:expr, $v:expr) => {{
                self.kw($k);
                $v
            }};
        }
        macro_rules! astr {
            ($k:expr, $v:expr) => {{
                self.kw($k);
                self.sp();
                $v(self.astring())
            }};
        }
        macro_rules! date {
            ($k:expr, $v:expr) => {{
                self.kw($k);
                self.sp();
                $v(self.date())
            }};
        }
        self.c(SEARCH_COV[k]);
        match k {
            0 => simple!("ALL", SearchKey::All),
            1 => simple!("ANSWERED", SearchKey::Answered),
            2 => simple!("DELETED", SearchKey::Deleted),
            3 => simple!("DRAFT", SearchKey::Draft),
            4 => simple!("FLAGGED", SearchKey::Flagged),
            5 => simple!("NEW", SearchKey::New),
            6 => simple!("OLD", SearchKey::Old),
            7 => simple!("RECENT", SearchKey::Recent),
            8 => simple!("SEEN", SearchKey::Seen),
            9 => simple!("UNANSWERED", SearchKey::Unanswered),
            10 => simple!("UNDELETED", SearchKey::Undeleted),
            11 => simple!("UNDRAFT", SearchKey::Undraft),
            12 => simple!("UNFLAGGED", SearchKey::Unflagged),
            13 => simple!("UNSEEN", SearchKey::Unseen),
            14 => astr!("BCC", SearchKey::Bcc),
            15 => astr!("BODY", SearchKey::Body),
            16 => astr!("CC", SearchKey::Cc),
            17 => astr!("FROM", SearchKey::From),
            18 => astr!("SUBJECT", SearchKey::Subject),
            19 => astr!("TEXT", SearchKey::Text),
            20 => astr!("TO", SearchKey::To),
            21 => date!("BEFORE", SearchKey::Before),
            22 => date!("ON", SearchKey::On),
            23 => date!("SINCE", SearchKey::Since),
            24 => date!("SENTBEFORE", SearchKey::SentBefore),
            25 => date!("SENTON", SearchKey::SentOn),
            26 => date!("SENTSINCE", SearchKey::SentSince),
            27 => {
                self.kw("HEADER");
                self.sp();
                let a = self.astring();
                self.sp();
                let b = self.astring();
                SearchKey::Header(a, b)
            }
            28 => {
                self.kw("KEYWORD");
                self.sp();
                SearchKey::Keyword(self.atom())
            }
            29 => {
                self.kw("UNKEYWORD");
                self.sp();
                SearchKey::Unkeyword(self.atom())
            }
            30 => {
                self.kw("LARGER");
                self.sp();
                SearchKey::Larger(self.num())
            }
            31 => {
                self.kw("SMALLER");
                self.sp();
                SearchKey::Smaller(self.num())
            }
            32 => {
                self.kw("UID");
                self.sp();
                SearchKey::Uid(self.sequence_set())
            }
            33 | 37 => SearchKey::SequenceSet(self.sequence_set()),
            34 => {
                self.kw("NOT");
                self.sp();
                self.dig = dig;
                SearchKey::Not(Box::new(self.search_key(depth - 1)))
            }
            35 => {
                self.kw("OR");
                self.sp();
                let first = dig && self.r.bool();
                self.dig = first;
                let a = self.search_key(depth - 1);
                self.sp();
                self.dig = dig && !first;
                let b = self.search_key(depth - 1);
                SearchKey::Or(Box::new(a), Box::new(b))
            }
            36 => {
                self.s("(");
                self.dig = dig;
                let v = self.vec1(3, " ", |g| g.search_key(depth - 1));
                self.s(")");
                SearchKey::And(v)
            }
            #[cfg(feature = "ext")]
            _ => {
                self.kw("MODSEQ");
                let entry = if self.r.bool() {
                    self.s(" \"");
                    self.kwo("/flags/");
                    let f = match self.r.below(7) {
                        0 => {
                            self.kwo("\\\\Answered");
                            AttributeFlag::Answered
                        }
                        1 => {
                            self.kwo("\\\\Deleted");
                            AttributeFlag::Deleted
                        }
                        2 => {
                            self.kwo("\\\\Draft");
                            AttributeFlag::Draft
                        }
                        3 => {
                            self.kwo("\\\\Flagged");
                            AttributeFlag::Flagged
                        }
                        4 => {
                            self.kwo("\\\\Seen");
                            AttributeFlag::Seen
                        }
                        5 => {
                            let a = self.flag_ext_name();
                            self.s("\\\\");
                            self.s(&a);
                            AttributeFlag::system(Atom::try_from(a).unwrap())
                        }
                        _ => AttributeFlag::keyword(self.atom()),
                    };
                    self.s("\" ");
                    let e = match self.r.below(3) {
                        0 => {
                            self.kw("priv");
                            EntryTypeReq::Private
                        }
                        1 => {
                            self.kw("shared");
                            EntryTypeReq::Shared
                        }
                        _ => {
                            self.kw("all");
                            EntryTypeReq::All
                        }
                    };
                    Some((f, e))
                } else {
                    None
                };
                self.sp();
                let modseq = self.num64();
                SearchKey::ModSequence { entry, modseq }
            }
            #[cfg(not(feature = "ext"))]
            _ => simple!("ALL", SearchKey::All),
        }
    }
    pub fn search_keys(&mut self) -> Vec1<SearchKey<'static>> {
        let depth = if self.r.chance(1, 10) { 8 } else { 3 };
        if self.r.chance(1, 30) {
            self.dig = true;
        }
        let depth = if self.dig { self.r.range(4, 8) } else { depth };
        self.vec1(3, " ", |g| g.search_key(depth))
    }

    // ----- fetch -----
    pub fn part(&mut self) -> Part {
        Part(self.vec1(4, ".", |g| g.nz()))
    }
    pub fn section(&mut self) -> Section<'static> {
        let at = self.canon.len;
        let v = self.section_();
        self.mark_since(M::Section, at);
        v
    }
    fn section_(&mut self) -> Section<'static> {
        self.c("section");
        fn opt_part(g: &mut G) -> Option<Part> {
            if g.r.bool() {
                let p = g.part();
                g.s(".");
                Some(p)
            } else {
                None
            }
        }
        match self.r.below(6) {
            0 => Section::Part(self.part()),
            1 => {
                let p = opt_part(self);
                self.kw("HEADER");
                Section::Header(p)
            }
            2 => {
                let p = opt_part(self);
                self.kw("HEADER.FIELDS");
                self.s(" (");
                let l = self.vec1(3, " ", |g| g.astring());
                self.s(")");
                Section::HeaderFields(p, l)
            }
            3 => {
                let p = opt_part(self);
                self.kw("HEADER.FIELDS.NOT");
                self.s(" (");
                let l = self.vec1(3, " ", |g| g.astring());
                self.s(")");
                Section::HeaderFieldsNot(p, l)
            }
            4 => {
                let p = opt_part(self);
                self.kw("TEXT");
                Section::Text(p)
            }
            _ => {
                let p = self.part();
                self.s(".");
                self.kw("MIME");
                Section::Mime(p)
            }
        }
    }
    pub fn opt_section(&mut self) -> Option<Section<'static>> {
        self.s("[");
        let s = if self.r.chance(1, 4) { None } else { Some(self.section()) };
        self.s("]");
        s
    }
    pub fn partial(&mut self) -> Option<(u32, NonZeroU32)> {
        if self.r.bool() {
            return None;
        }
        self.s("<");
        let a = self.num();
        self.s(".");
        let b = self.nz();
        self.s(">");
        Some((a, b))
    }
    pub fn binary_section(&mut self) -> Vec<NonZeroU32> {
        self.s("[");
        let at = self.canon.len;
        let v = self.list(0, 3, ".", |g| g.nz());
        self.mark_since(M::BinSection, at);
        self.s("]");
        v
    }
    pub fn item_name(&mut self) -> MessageDataItemName<'static> {
        use MessageDataItemName as M;
        let k = self.r.below(if EXT { 15 } else { 14 });
        self.c("fetch-item-name");
        macro_rules! simple {
            ($k:expr, $v:expr) => {{
                self.kw($k);
                $v
            }};
        }
        match k {
            0 => simple!("BODY", M::Body),
            1 | 2 => {
                let peek = self.r.bool();
                self.kw(if peek { "BODY.PEEK" } else { "BODY" });
                let section = self.opt_section();
                let partial = self.partial();
                M::BodyExt { section, partial, peek }
            }
            3 => simple!("BODYSTRUCTURE", M::BodyStructure),
            4 => simple!("ENVELOPE", M::Envelope),
            5 => simple!("FLAGS", M::Flags),
            6 => simple!("INTERNALDATE", M::InternalDate),
            7 => simple!("RFC822", M::Rfc822),
            8 => simple!("RFC822.HEADER", M::Rfc822Header),
            9 => simple!("RFC822.SIZE", M::Rfc822Size),
            10 => simple!("RFC822.TEXT", M::Rfc822Text),
            11 => simple!("UID", M::Uid),
            12 => {
                let peek = self.r.bool();
                self.kw(if peek { "BINARY.PEEK" } else { "BINARY" });
                let section = self.binary_section();
                let partial = self.partial();
                M::Binary { section, partial, peek }
            }
            13 => {
                self.kw("BINARY.SIZE");
                M::BinarySize {
                    section: self.binary_section(),
                }
            }
            #[cfg(feature = "ext")]
            _ => simple!("MODSEQ", M::ModSeq),
            #[cfg(not(feature = "ext"))]
            _ => simple!("UID", M::Uid),
        }
    }

    // ----- command -----
    pub fn uid(&mut self) -> bool {
        let u = self.r.bool();
        if u {
            self.kw("UID");
            self.sp();
        }
        u
    }
    #[cfg(feature = "ext")]
    pub fn select_parameters(&mut self) -> Vec<SelectParameter> {
        if self.r.bool() {
            return vec![];
        }
        self.c("select-parameters");
        self.s(" (");
        let v = self.list1(2, " ", |g| {
            if g.r.bool() {
                g.kw("CONDSTORE");
                SelectParameter::CondStore
            } else {
                g.c("qresync");
                g.kw("QRESYNC");
                g.s(" (");
                let uid_validity = g.nz();
                g.sp();
                let mod_sequence_value = g.nz64();
                let known_uids = if g.r.bool() {
                    g.sp();
                    Some(g.sequence_set())
                } else {
                    None
                };
                let seq_match_data = if g.r.bool() {
                    g.s(" (");
                    let a = g.sequence_set();
                    g.sp();
                    let b = g.sequence_set();
                    g.s(")");
                    Some((a, b))
                } else {
                    None
                };
                g.s(")");
                SelectParameter::QResync {
                    uid_validity,
                    mod_sequence_value,
                    known_uids,
                    seq_match_data,
                }
            }
        });
        self.s(")");
        v
    }
    #[cfg(feature = "ext")]
    pub fn id_parameters(&mut self) -> Option<Vec<(IString<'static>, NString<'static>)>> {
        let at = self.canon.len;
        let v = self.id_parameters_();
        self.mark_since(M::IdParams, at);
        v
    }
    #[cfg(feature = "ext")]
    fn id_parameters_(&mut self) -> Option<Vec<(IString<'static>, NString<'static>)>> {
        match self.r.below(5) {
            0 => {
                self.kw("NIL");
                None
            }
            1 => {
                // With quirk_id_empty_to_nil the empty list is written as NIL.
                self.c("id:empty");
                if ID_NIL {
                    self.canon.push(b"NIL");
                    self.styled.push(b"()");
                    if self.norm {
                        return None;
                    }
                } else {
                    self.s("()");
                }
                Some(vec![])
            }
            _ => {
                self.s("(");
                let v = self.list(1, 3, " ", |g| {
                    let k = g.string();
                    g.sp();
                    (k, g.nstring())
                });
                if self.dev(Dev::IdSpace) {
                    self.s(" ");
                }
                self.s(")");
                Some(v)
            }
        }
    }
    #[cfg(feature = "ext")]
    pub fn entry_value(&mut self) -> EntryValue<'static> {
        let entry = Entry::try_from(self.astring()).unwrap();
        self.sp();
        EntryValue {
            entry,
            value: self.nstring8(),
        }
    }

    pub const COMMANDS: usize = 45;
    pub fn command(&mut self, which: Option<usize>) -> Command<'static> {
        let tag = self.tag();
        self.sp();
        let k = which.unwrap_or_else(|| self.r.below(Self::COMMANDS)) % Self::COMMANDS;
        let body = self.command_body(k);
        self.crlf();
        Command { tag, body }
    }
    pub fn command_body(&mut self, k: usize) -> CommandBody<'static> {
        macro_rules! simple {
            ($k:expr, $v:expr) => {{
                self.c(concat!("cmd:", $k));
                self.kw($k);
                $v
            }};
        }
        macro_rules! mbx {
            ($k:expr, $v:ident) => {{
                self.c(concat!("cmd:", $k));
                self.kw($k);
                self.sp();
                CommandBody::$v {
                    mailbox: self.mailbox(),
                }
            }};
        }
        match k {
            0 => simple!("CAPABILITY", CommandBody::Capability),
            1 => simple!("NOOP", CommandBody::Noop),
            2 => simple!("LOGOUT", CommandBody::Logout),
            #[cfg(feature = "ext")]
            3 => simple!("STARTTLS", CommandBody::StartTLS),
            4 | 5 => {
                self.c("cmd:AUTHENTICATE");
                self.kw("AUTHENTICATE");
                self.sp();
                let mechanism = self.auth_mechanism();
                let initial_response = match self.r.below(4) {
                    0 => None,
                    1 => {
                        self.c("auth:empty-ir");
                        self.s(" =");
                        Some(Secret::new(vec![].into()))
                    }
                    _ => {
                        let mut d = self.raw_literal(true);
                        if d.is_empty() {
                            d.push(0);
                        }
                        self.sp();
                        self.mark(M::B64, b64(&d).len());
                        self.s(&b64(&d));
                        Some(Secret::new(d.into()))
                    }
                };
                CommandBody::Authenticate {
                    mechanism,
                    initial_response,
                }
            }
            6 | 7 => {
                self.c("cmd:LOGIN");
                self.kw("LOGIN");
                self.sp();
                let username = self.astring();
                self.sp();
                let password = Secret::new(self.astring());
                CommandBody::Login { username, password }
            }
            8 => {
                self.c("cmd:SELECT");
                self.kw("SELECT");
                self.sp();
                CommandBody::Select {
                    mailbox: self.mailbox(),
                    #[cfg(feature = "ext")]
                    parameters: self.select_parameters(),
                }
            }
            9 => simple!("UNSELECT", CommandBody::Unselect),
            10 => {
                self.c("cmd:EXAMINE");
                self.kw("EXAMINE");
                self.sp();
                CommandBody::Examine {
                    mailbox: self.mailbox(),
                    #[cfg(feature = "ext")]
                    parameters: self.select_parameters(),
                }
            }
            11 => mbx!("CREATE", Create),
            12 => mbx!("DELETE", Delete),
            13 => {
                self.c("cmd:RENAME");
                self.kw("RENAME");
                self.sp();
                let from = self.mailbox();
                self.sp();
                let to = self.mailbox();
                CommandBody::Rename { from, to }
            }
            14 => mbx!("SUBSCRIBE", Subscribe),
            15 => mbx!("UNSUBSCRIBE", Unsubscribe),
            16 | 17 => {
                let lsub = k == 17;
                self.c(if lsub { "cmd:LSUB" } else { "cmd:LIST" });
                self.kw(if lsub { "LSUB" } else { "LIST" });
                self.sp();
                let reference = self.mailbox();
                self.sp();
                let mailbox_wildcard = self.list_mailbox();
                if lsub {
                    CommandBody::Lsub {
                        reference,
                        mailbox_wildcard,
                    }
                } else {
                    CommandBody::List {
                        reference,
                        mailbox_wildcard,
                    }
                }
            }
            18 => {
                self.c("cmd:STATUS");
                self.kw("STATUS");
                self.sp();
                let mailbox = self.mailbox();
                self.s(" (");
                let item_names = self.list(1, 4, " ", |g| {
                    use StatusDataItemName as S;
                    let all: &[(&str, S)] = &[
                        ("MESSAGES", S::Messages),
                        ("RECENT", S::Recent),
                        ("UIDNEXT", S::UidNext),
                        ("UIDVALIDITY", S::UidValidity),
                        ("UNSEEN", S::Unseen),
                        ("DELETED", S::Deleted),
                        ("DELETED-STORAGE", S::DeletedStorage),
                        #[cfg(feature = "ext")]
                        ("HIGHESTMODSEQ", S::HighestModSeq),
                    ];
                    let (n, v) = g.r.pick(all);
                    g.kw(n);
                    v.clone()
                });
                self.s(")");
                CommandBody::Status {
                    mailbox,
                    item_names: item_names.into(),
                }
            }
            19 | 20 => {
                self.c("cmd:APPEND");
                self.kw("APPEND");
                self.sp();
                let mailbox = self.mailbox();
                let flags = if self.r.chance(2, 3) {
                    self.s(" (");
                    let f = self.list(1, 3, " ", |g| g.flag());
                    self.s(")");
                    f
                } else {
                    if self.style(1, 3) {
                        self.c("style:append-empty-flags");
                        self.styled.push(b" ()");
                    }
                    vec![]
                };
                let date = if self.r.bool() {
                    self.sp();
                    Some(self.datetime())
                } else {
                    None
                };
                self.sp();
                let message = if self.r.chance(1, 4) {
                    LiteralOrLiteral8::Literal8(self.literal8())
                } else {
                    LiteralOrLiteral8::Literal(self.literal())
                };
                CommandBody::Append {
                    mailbox,
                    flags,
                    date,
                    message,
                }
            }
            21 => simple!("CHECK", CommandBody::Check),
            22 => simple!("CLOSE", CommandBody::Close),
            23 => simple!("EXPUNGE", CommandBody::Expunge),
            24 => {
                self.c("cmd:UID EXPUNGE");
                self.kw("UID EXPUNGE");
                self.sp();
                CommandBody::ExpungeUid {
                    sequence_set: self.sequence_set(),
                }
            }
            25..=27 => {
                self.c("cmd:SEARCH");
                let uid = self.uid();
                self.kw("SEARCH");
                let charset = if self.r.chance(1, 3) {
                    self.sp();
                    self.kw("CHARSET");
                    self.sp();
                    Some(self.charset())
                } else {
                    None
                };
                self.sp();
                let criteria = self.search_keys();
                CommandBody::Search { charset, criteria, uid }
            }
            28 => {
                self.c("cmd:SORT");
                let uid = self.uid();
                self.kw("SORT");
                self.s(" (");
                let sort_criteria = self.vec1(3, " ", |g| {
                    let reverse = g.r.bool();
                    if reverse {
                        g.kw("REVERSE");
                        g.sp();
                    }
                    let (n, v) = g.r.pick(SORT_KEYS);
                    g.kw(n);
                    SortCriterion {
                        reverse,
                        key: v.clone(),
                    }
                });
                self.s(") ");
                let charset = self.charset();
                self.sp();
                let search_criteria = self.search_keys();
                CommandBody::Sort {
                    sort_criteria,
                    charset,
                    search_criteria,
                    uid,
                }
            }
            29 => {
                self.c("cmd:THREAD");
                let uid = self.uid();
                self.kw("THREAD");
                self.sp();
                let algorithm = self.thread_algorithm();
                self.sp();
                let charset = self.charset();
                self.sp();
                let search_criteria = self.search_keys();
                CommandBody::Thread {
                    algorithm,
                    charset,
                    search_criteria,
                    uid,
                }
            }
            30..=32 => {
                self.c("cmd:FETCH");
                let uid = self.uid();
                self.kw("FETCH");
                self.sp();
                let sequence_set = self.sequence_set();
                self.sp();
                let macro_or_item_names = match self.r.below(3) {
                    0 => {
                        let (n, m) = self.r.pick(&[("ALL", Macro::All), ("FAST", Macro::Fast), ("FULL", Macro::Full)]).clone();
                        self.c("fetch:macro");
                        self.kw(n);
                        MacroOrMessageDataItemNames::Macro(m)
                    }
                    1 => {
                        let paren = self.style(1, 2);
                        if paren {
                            self.c("style:fetch-single-parens");
                            self.styled.push(b"(");
                        }
                        let n = self.item_name();
                        if paren {
                            self.styled.push(b")");
                        }
                        MacroOrMessageDataItemNames::MessageDataItemNames(vec![n])
                    }
                    _ => {
                        self.s("(");
                        let v = self.list(2, 4, " ", |g| g.item_name());
                        self.s(")");
                        MacroOrMessageDataItemNames::MessageDataItemNames(v)
                    }
                };
                #[cfg(feature = "ext")]
                let modifiers = if self.r.bool() {
                    self.s(" (");
                    let v = self.list1(2, " ", |g| {
                        if g.r.bool() {
                            g.kw("CHANGEDSINCE");
                            g.sp();
                            FetchModifier::ChangedSince(g.nz64())
                        } else {
                            g.kw("VANISHED");
                            FetchModifier::Vanished
                        }
                    });
                    self.s(")");
                    v
                } else {
                    vec![]
                };
                CommandBody::Fetch {
                    sequence_set,
                    macro_or_item_names,
                    uid,
                    #[cfg(feature = "ext")]
                    modifiers,
                }
            }
            33 | 34 => {
                self.c("cmd:STORE");
                let uid = self.uid();
                self.kw("STORE");
                self.sp();
                let sequence_set = self.sequence_set();
                self.sp();
                #[cfg(feature = "ext")]
                let modifiers = if self.r.chance(1, 3) {
                    self.s("(");
                    let v = self.list1(2, " ", |g| {
                        g.kw("UNCHANGEDSINCE");
                        g.sp();
                        StoreModifier::UnchangedSince(g.num64())
                    });
                    self.s(") ");
                    v
                } else {
                    vec![]
                };
                let (ks, kind) = *self.r.pick(&[("+FLAGS", StoreType::Add), ("-FLAGS", StoreType::Remove), ("FLAGS", StoreType::Replace)]);
                let kind = kind;
                self.kw(ks);
                let response = if self.r.bool() {
                    self.kw(".SILENT");
                    StoreResponse::Silent
                } else {
                    StoreResponse::Answer
                };
                self.sp();
                let n = self.few(0, 3);
                let paren = n == 0 || !self.style(1, 2);
                self.canon.push(b"(");
                if paren {
                    self.styled.push(b"(");
                } else {
                    self.c("style:store-no-parens");
                }
                let flags = self.list(n, n, " ", |g| g.flag());
                self.canon.push(b")");
                if paren {
                    self.styled.push(b")");
                }
                CommandBody::Store {
                    sequence_set,
                    kind,
                    response,
                    flags,
                    uid,
                    #[cfg(feature = "ext")]
                    modifiers,
                }
            }
            35 | 36 => {
                let mv = k == 36;
                self.c(if mv { "cmd:MOVE" } else { "cmd:COPY" });
                let uid = self.uid();
                self.kw(if mv { "MOVE" } else { "COPY" });
                self.sp();
                let sequence_set = self.sequence_set();
                self.sp();
                let mailbox = self.mailbox();
                if mv {
                    CommandBody::Move {
                        sequence_set,
                        mailbox,
                        uid,
                    }
                } else {
                    CommandBody::Copy {
                        sequence_set,
                        mailbox,
                        uid,
                    }
                }
            }
            37 => simple!("IDLE", CommandBody::Idle),
            38 => {
                self.c("cmd:ENABLE");
                self.kw("ENABLE");
                self.sp();
                CommandBody::Enable {
                    capabilities: self.vec1(3, " ", |g| g.capability_enable()),
                }
            }
            39 => {
                self.c("cmd:COMPRESS");
                self.kw("COMPRESS DEFLATE");
                CommandBody::Compress {
                    algorithm: CompressionAlgorithm::Deflate,
                }
            }
            40 => {
                self.c("cmd:GETQUOTA");
                self.kw("GETQUOTA");
                self.sp();
                CommandBody::GetQuota { root: self.astring() }
            }
            41 => {
                self.c("cmd:GETQUOTAROOT");
                self.kw("GETQUOTAROOT");
                self.sp();
                CommandBody::GetQuotaRoot {
                    mailbox: self.mailbox(),
                }
            }
            42 => {
                self.c("cmd:SETQUOTA");
                self.kw("SETQUOTA");
                self.sp();
                let root = self.astring();
                self.s(" (");
                let quotas = self.list(0, 3, " ", |g| {
                    let resource = g.resource();
                    g.sp();
                    QuotaSet {
                        resource,
                        limit: g.num64(),
                    }
                });
                self.s(")");
                CommandBody::SetQuota { root, quotas }
            }
            #[cfg(feature = "ext")]
            43 => match self.r.below(2) {
                0 => {
                    self.c("cmd:ID");
                    self.kw("ID");
                    self.sp();
                    CommandBody::Id {
                        parameters: self.id_parameters(),
                    }
                }
                _ => simple!("NAMESPACE", CommandBody::Namespace),
            },
            #[cfg(feature = "ext")]
            44 => {
                if self.r.bool() {
                    self.c("cmd:SETMETADATA");
                    self.kw("SETMETADATA");
                    self.sp();
                    let mailbox = self.mailbox();
                    self.s(" (");
                    let entry_values = self.vec1(3, " ", |g| g.entry_value());
                    self.s(")");
                    CommandBody::SetMetadata { mailbox, entry_values }
                } else {
                    self.c("cmd:GETMETADATA");
                    self.kw("GETMETADATA");
                    let options = if self.r.bool() {
                        self.s(" (");
                        let v = self.list1(2, " ", |g| {
                            if g.r.bool() {
                                g.kw("MAXSIZE");
                                g.sp();
                                GetMetadataOption::MaxSize(g.num())
                            } else {
                                g.kw("DEPTH");
                                g.sp();
                                GetMetadataOption::Depth(match g.r.below(3) {
                                    0 => {
                                        g.s("0");
                                        Depth::Null
                                    }
                                    1 => {
                                        g.s("1");
                                        Depth::One
                                    }
                                    _ => {
                                        g.kw("INFINITY");
                                        Depth::Infinity
                                    }
                                })
                            }
                        });
                        self.s(")");
                        v
                    } else {
                        vec![]
                    };
                    self.sp();
                    let mailbox = self.mailbox();
                    self.sp();
                    let n = self.few(1, 3);
                    let paren = n == 1 && self.style(1, 2);
                    if n > 1 {
                        self.s("(");
                    } else if paren {
                        self.c("style:getmetadata-single-parens");
                        self.styled.push(b"(");
                    }
                    let entries = self.list(n, n, " ", |g| Entry::try_from(g.astring()).unwrap());
                    if n > 1 {
                        self.s(")");
                    } else if paren {
                        self.styled.push(b")");
                    }
                    CommandBody::GetMetadata {
                        options,
                        mailbox,
                        entries: Vec1::try_from(entries).unwrap(),
                    }
                }
            }
            _ => simple!("NOOP", CommandBody::Noop),
        }
    }

    pub fn authenticate_data(&mut self) -> AuthenticateData<'static> {
        let v = if self.r.chance(1, 6) {
            self.c("auth:cancel");
            self.s("*");
            AuthenticateData::Cancel
        } else {
            self.c("auth:continue");
            let d = self.raw_literal(true);
            self.mark(M::B64, b64(&d).len());
            self.s(&b64(&d));
            AuthenticateData::r#continue(d)
        };
        self.crlf();
        v
    }

    // ----- responses -----
    pub fn code(&mut self) -> Code<'static> {
        // A malformed code may legally be read as an unknown code, so its marks are apart.
        let at = self.canon.len;
        self.nomark += 1;
        self.in_code = true;
        let c = self.code_inner();
        self.in_code = false;
        self.nomark -= 1;
        self.code_at = Some((at, self.canon.len - at));
        c
    }
    pub fn code_inner(&mut self) -> Code<'static> {
        let k = self.r.below(if EXT { 25 } else { 19 });
        macro_rules! simple {
            ($k:expr, $v:expr) => {{
                self.c(concat!("code:", $k));
                self.kw($k);
                $v
            }};
        }
        match k {
            0 => simple!("ALERT", Code::Alert),
            1 => {
                self.c("code:BADCHARSET");
                self.kw("BADCHARSET");
                if self.r.chance(1, 3) {
                    Code::BadCharset { allowed: vec![] }
                } else {
                    self.s(" (");
                    let allowed = self.list(1, 3, " ", |g| g.charset());
                    self.s(")");
                    Code::BadCharset { allowed }
                }
            }
            2 => {
                self.c("code:CAPABILITY");
                self.kw("CAPABILITY");
                self.sp();
                Code::Capability(self.vec1(4, " ", |g| g.capability()))
            }
            3 => simple!("PARSE", Code::Parse),
            4 => {
                self.c("code:PERMANENTFLAGS");
                self.kw("PERMANENTFLAGS");
                self.s(" (");
                let v = self.list(0, 4, " ", |g| g.flag_perm());
                self.s(")");
                Code::PermanentFlags(v)
            }
            5 => simple!("READ-ONLY", Code::ReadOnly),
            6 => simple!("READ-WRITE", Code::ReadWrite),
            7 => simple!("TRYCREATE", Code::TryCreate),
            8 => {
                self.c("code:UIDNEXT");
                self.kw("UIDNEXT");
                self.sp();
                Code::UidNext(self.nz())
            }
            9 => {
                self.c("code:UIDVALIDITY");
                self.kw("UIDVALIDITY");
                self.sp();
                Code::UidValidity(self.nz())
            }
            10 => {
                self.c("code:UNSEEN");
                self.kw("UNSEEN");
                self.sp();
                Code::Unseen(self.nz())
            }
            11 => simple!("COMPRESSIONACTIVE", Code::CompressionActive),
            12 => simple!("OVERQUOTA", Code::OverQuota),
            13 => simple!("TOOBIG", Code::TooBig),
            14 => simple!("UNKNOWN-CTE", Code::UnknownCte),
            15 => {
                self.c("code:APPENDUID");
                self.kw("APPENDUID");
                self.sp();
                let uid_validity = self.nz();
                self.sp();
                let uid = self.nz();
                Code::AppendUid { uid_validity, uid }
            }
            16 => {
                self.c("code:COPYUID");
                self.kw("COPYUID");
                self.sp();
                let uid_validity = self.nz();
                self.sp();
                let source = self.uid_set();
                self.sp();
                let destination = self.uid_set();
                Code::CopyUid {
                    uid_validity,
                    source,
                    destination,
                }
            }
            17 => simple!("UIDNOTSTICKY", Code::UidNotSticky),
            18 => {
                self.c("code:OTHER");
                let mut t = if self.r.bool() {
                    self.near(&[
                        "ALERT", "BADCHARSET", "CAPABILITY", "PARSE", "PERMANENTFLAGS", "READ-ONLY", "READ-WRITE", "TRYCREATE", "UIDNEXT", "UIDVALIDITY", "UNSEEN",
                        "COMPRESSIONACTIVE", "OVERQUOTA", "TOOBIG", "UNKNOWN-CTE", "APPENDUID", "COPYUID", "UIDNOTSTICKY", "METADATA", "REFERRAL", "HIGHESTMODSEQ",
                        "NOMODSEQ", "MODIFIED", "CLOSED",
                    ])
                } else {
                    format!("X-{}", self.raw_atom().replace(']', "x"))
                };
                if self.r.bool() {
                    t.push(' ');
                    t.push_str(&self.raw_text(1).replace(']', "x"));
                }
                self.s(&t);
                Code::Other(CodeOther::unvalidated(t.into_bytes()))
            }
            #[cfg(feature = "ext")]
            19 => {
                self.c("code:HIGHESTMODSEQ");
                self.kw("HIGHESTMODSEQ");
                self.sp();
                Code::HighestModSeq(self.nz64())
            }
            #[cfg(feature = "ext")]
            20 => simple!("NOMODSEQ", Code::NoModSeq),
            #[cfg(feature = "ext")]
            21 => {
                self.c("code:MODIFIED");
                self.kw("MODIFIED");
                self.sp();
                Code::Modified(self.sequence_set())
            }
            #[cfg(feature = "ext")]
            22 => simple!("CLOSED", Code::Closed),
            #[cfg(feature = "ext")]
            23 => {
                self.c("code:METADATA");
                self.kw("METADATA");
                self.sp();
                Code::Metadata(match self.r.below(4) {
                    0 => {
                        self.kw("LONGENTRIES");
                        self.sp();
                        MetadataCode::LongEntries(self.num())
                    }
                    1 => {
                        self.kw("MAXSIZE");
                        self.sp();
                        MetadataCode::MaxSize(self.num())
                    }
                    2 => {
                        self.kw("TOOMANY");
                        MetadataCode::TooMany
                    }
                    _ => {
                        self.kw("NOPRIVATE");
                        MetadataCode::NoPrivate
                    }
                })
            }
            #[cfg(feature = "ext")]
            24 => {
                self.c("code:REFERRAL");
                self.kw("REFERRAL");
                self.sp();
                let url = format!("imap://{}", self.raw_atom().replace(']', "x"));
                self.s(&url);
                Code::Referral(url.into())
            }
            _ => simple!("ALERT", Code::Alert),
        }
    }
    pub fn uid_set(&mut self) -> UidSet {
        let at = self.canon.len;
        let v = self.uid_set_();
        self.mark_since(M::UidSet, at);
        v
    }
    fn uid_set_(&mut self) -> UidSet {
        UidSet(self.vec1(3, ",", |g| {
            if g.r.bool() {
                UidElement::Single(g.nz())
            } else {
                let a = g.nz();
                g.s(":");
                let b = g.nz();
                UidElement::Range(a, b)
            }
        }))
    }
    pub fn resp_text(&mut self) -> (Option<Code<'static>>, Text<'static>) {
        let at = self.canon.len;
        self.nomark += 1;
        let r = self.resp_text_inner();
        self.nomark -= 1;
        self.mark_since(M::RespText, at);
        r
    }
    pub fn resp_text_inner(&mut self) -> (Option<Code<'static>>, Text<'static>) {
        if self.dev(Dev::MissingText) {
            self.s("[");
            let c = self.code();
            self.s("]");
            return (Some(c), Text::try_from("...").unwrap());
        }
        let code = if self.r.chance(2, 3) {
            self.s("[");
            let c = self.code();
            self.s("] ");
            Some(c)
        } else {
            None
        };
        let text = self.text(code.is_some());
        (code, text)
    }
    pub fn greeting(&mut self) -> Greeting<'static> {
        self.s("* ");
        let (k, kind) = *self.r.pick(&[("OK", GreetingKind::Ok), ("PREAUTH", GreetingKind::PreAuth), ("BYE", GreetingKind::Bye)]);
        self.c("greeting");
        self.kw(k);
        self.both(b" ");
        let (code, text) = self.resp_text();
        self.crlf();
        Greeting { kind, code, text }
    }
    pub fn status(&mut self) -> Status<'static> {
        match self.r.below(5) {
            0 => {
                self.c("resp:BYE");
                self.s("* ");
                self.kw("BYE");
                self.both(b" ");
                let (code, text) = self.resp_text();
                self.crlf();
                Status::Bye(Bye { code, text })
            }
            x => {
                let tag = if x < 3 {
                    self.c("resp:tagged");
                    Some(self.tag())
                } else {
                    self.c("resp:untagged");
                    self.s("*");
                    None
                };
                self.sp();
                let (k, kind) = *self.r.pick(&[("OK", StatusKind::Ok), ("NO", StatusKind::No), ("BAD", StatusKind::Bad)]);
                self.kw(k);
                self.both(b" ");
                let (code, text) = self.resp_text();
                self.crlf();
                let body = StatusBody { kind, code, text };
                match tag {
                    Some(tag) => Status::Tagged(Tagged { tag, body }),
                    None => Status::Untagged(body),
                }
            }
        }
    }
    pub fn continuation(&mut self) -> CommandContinuationRequest<'static> {
        self.nomark += 1;
        let r = self.continuation_inner();
        self.nomark -= 1;
        r
    }
    pub fn continuation_inner(&mut self) -> CommandContinuationRequest<'static> {
        if self.dev(Dev::EmptyContinue) {
            self.s("+");
            self.crlf();
            return CommandContinuationRequest::basic(None, "...").unwrap();
        }
        if self.dev(Dev::MissingText) {
            self.s("+ [");
            let c = self.code();
            self.s("]");
            self.crlf();
            return CommandContinuationRequest::basic(Some(c), "...").unwrap();
        }
        self.s("+ ");
        if self.r.bool() {
            self.c("resp:+base64");
            let d = self.raw_literal(true);
            self.s(&b64(&d));
            self.crlf();
            CommandContinuationRequest::base64(d)
        } else {
            self.c("resp:+basic");
            let code = if self.r.bool() {
                self.s("[");
                let c = self.code();
                self.s("] ");
                Some(c)
            } else {
                None
            };
            let mut t = self.raw_text(1);
            if code.is_none() {
                // Make it unambiguous: not starting with "[" and not base64.
                t = format!("x!{t}");
            }
            self.s(&t);
            self.crlf();
            CommandContinuationRequest::basic(code, t).unwrap()
        }
    }
    pub const DATAS: usize = 24;
    pub fn data(&mut self, which: Option<usize>) -> Data<'static> {
        self.s("* ");
        let k = which.unwrap_or_else(|| self.r.below(Self::DATAS)) % Self::DATAS;
        let d = self.data_body(k);
        self.crlf();
        d
    }
    pub fn data_body(&mut self, k: usize) -> Data<'static> {
        match k {
            0 => {
                self.c("data:CAPABILITY");
                self.kw("CAPABILITY");
                self.sp();
                let v = self.vec1(6, " ", |g| g.capability());
                if self.dev(Dev::CapabilitySpace) {
                    self.s(" ");
                }
                Data::Capability(v)
            }
            1 | 2 => {
                let lsub = k == 2;
                self.c(if lsub { "data:LSUB" } else { "data:LIST" });
                self.kw(if lsub { "LSUB" } else { "LIST" });
                self.s(" (");
                let items = self.list(0, 4, " ", |g| g.flag_name_attr());
                self.s(") ");
                let delimiter = self.delim();
                self.sp();
                let mailbox = self.mailbox();
                if lsub {
                    Data::Lsub {
                        items,
                        delimiter,
                        mailbox,
                    }
                } else {
                    Data::List {
                        items,
                        delimiter,
                        mailbox,
                    }
                }
            }
            3 => {
                self.c("data:STATUS");
                self.kw("STATUS");
                self.sp();
                let mailbox = self.mailbox();
                self.s(" (");
                let items = self.list(0, 5, " ", |g| {
                    let k = g.r.below(if EXT { 8 } else { 7 });
                    let n = ["MESSAGES", "RECENT", "UIDNEXT", "UIDVALIDITY", "UNSEEN", "DELETED", "DELETED-STORAGE", "HIGHESTMODSEQ"][k];
                    g.kw(n);
                    g.sp();
                    match k {
                        0 => StatusDataItem::Messages(g.num()),
                        1 => StatusDataItem::Recent(g.num()),
                        2 => StatusDataItem::UidNext(g.nz()),
                        3 => StatusDataItem::UidValidity(g.nz()),
                        4 => StatusDataItem::Unseen(g.num()),
                        5 => StatusDataItem::Deleted(g.num()),
                        6 => StatusDataItem::DeletedStorage(g.num64()),
                        #[cfg(feature = "ext")]
                        _ => StatusDataItem::HighestModSeq(g.num64()),
                        #[cfg(not(feature = "ext"))]
                        _ => unreachable!(),
                    }
                });
                self.s(")");
                if self.dev(Dev::StatusSpace) {
                    self.s(" ");
                }
                Data::Status {
                    mailbox,
                    items: items.into(),
                }
            }
            4 | 5 => {
                let sort = k == 5;
                self.c(if sort { "data:SORT" } else { "data:SEARCH" });
                self.kw(if sort { "SORT" } else { "SEARCH" });
                let n = if self.large(60) { self.r.range(30, 400) } else { self.few(0, 5) };
                let seqs = self.times(n, |g| {
                    g.sp();
                    g.nz()
                });
                #[cfg(feature = "ext")]
                let modseq = if self.r.chance(1, 3) {
                    self.s(" (");
                    self.kw("MODSEQ");
                    self.sp();
                    let v = self.nz64();
                    self.s(")");
                    Some(v)
                } else {
                    None
                };
                if sort {
                    Data::Sort(
                        seqs,
                        #[cfg(feature = "ext")]
                        modseq,
                    )
                } else {
                    if self.dev(Dev::SearchSpace) {
                        self.s(" ");
                    }
                    Data::Search(
                        seqs,
                        #[cfg(feature = "ext")]
                        modseq,
                    )
                }
            }
            6 => {
                self.c("data:THREAD");
                self.kw("THREAD");
                let n = self.few(0, 3);
                if n > 0 {
                    self.sp();
                }
                let depth = self.r.range(0, 7);
                self.dig = n > 0 && self.r.chance(1, 4);
                let v = self.times(n, |g| g.thread(depth));
                Data::Thread(v)
            }
            7 => {
                self.c("data:FLAGS");
                self.kw("FLAGS");
                self.s(" (");
                let v = self.list(0, 5, " ", |g| g.flag());
                self.s(")");
                Data::Flags(v)
            }
            8 => {
                self.c("data:EXISTS");
                let n = self.num();
                self.sp();
                self.kw("EXISTS");
                Data::Exists(n)
            }
            9 => {
                self.c("data:RECENT");
                let n = self.num();
                self.sp();
                self.kw("RECENT");
                Data::Recent(n)
            }
            10 => {
                self.c("data:EXPUNGE");
                let n = self.nz();
                self.sp();
                self.kw("EXPUNGE");
                Data::Expunge(n)
            }
            11 => {
                self.c("data:ENABLED");
                self.kw("ENABLED");
                let n = self.few(0, 3);
                let capabilities = self.times(n, |g| {
                        g.sp();
                        g.capability_enable()
                    });
                Data::Enabled { capabilities }
            }
            12 => {
                self.c("data:QUOTA");
                self.kw("QUOTA");
                self.sp();
                let root = self.astring();
                self.s(" (");
                let quotas = self.vec1(3, " ", |g| {
                    let resource = g.resource();
                    g.sp();
                    if g.dev(Dev::QuotaSpace) {
                        let n = g.r.range(1, 3);
                        g.both(&b"   "[..n]);
                    }
                    let usage = g.num64();
                    g.sp();
                    if g.dev(Dev::QuotaSpace) {
                        let n = g.r.range(1, 3);
                        g.both(&b"   "[..n]);
                    }
                    let limit = g.num64();
                    QuotaGet { resource, usage, limit }
                });
                self.s(")");
                Data::Quota { root, quotas }
            }
            13 => {
                self.c("data:QUOTAROOT");
                self.kw("QUOTAROOT");
                self.sp();
                let mailbox = self.mailbox();
                let n = self.few(0, 3);
                let roots = self.times(n, |g| {
                        g.sp();
                        g.astring()
                    });
                Data::QuotaRoot { mailbox, roots }
            }
            #[cfg(feature = "ext")]
            14 => {
                self.c("data:ID");
                self.kw("ID");
                self.sp();
                Data::Id {
                    parameters: self.id_parameters(),
                }
            }
            #[cfg(feature = "ext")]
            15 => {
                self.c("data:METADATA");
                self.kw("METADATA");
                self.sp();
                let mailbox = self.mailbox();
                self.sp();
                let items = if self.r.bool() {
                    self.s("(");
                    let v = self.vec1(3, " ", |g| g.entry_value());
                    self.s(")");
                    MetadataResponse::WithValues(v)
                } else {
                    MetadataResponse::WithoutValues(self.vec1(3, " ", |g| Entry::try_from(g.astring()).unwrap()))
                };
                Data::Metadata { mailbox, items }
            }
            #[cfg(feature = "ext")]
            16 => {
                self.c("data:VANISHED");
                self.kw("VANISHED");
                let earlier = self.r.bool();
                if earlier {
                    self.s(" (");
                    self.kw("EARLIER");
                    self.s(")");
                }
                self.sp();
                Data::Vanished {
                    earlier,
                    known_uids: self.sequence_set(),
                }
            }
            #[cfg(feature = "ext")]
            17 => {
                self.c("data:NAMESPACE");
                self.kw("NAMESPACE");
                let mut v = Vec::new();
                for _ in 0..3 {
                    self.sp();
                    v.push(self.namespaces());
                }
                let shared = v.pop().unwrap();
                let other = v.pop().unwrap();
                let personal = v.pop().unwrap();
                Data::Namespace {
                    personal,
                    other,
                    shared,
                }
            }
            _ => {
                self.c("data:FETCH");
                let seq = self.nz();
                self.sp();
                self.kw("FETCH");
                self.s(" (");
                let items = self.vec1(4, " ", |g| g.fetch_item());
                self.s(")");
                Data::Fetch { seq, items }
            }
        }
    }
    #[cfg(feature = "ext")]
    pub fn namespaces(&mut self) -> Vec<Namespace<'static>> {
        let at = self.canon.len;
        let v = self.namespaces_();
        self.mark_since(M::Namespaces, at);
        v
    }
    #[cfg(feature = "ext")]
    fn namespaces_(&mut self) -> Vec<Namespace<'static>> {
        if self.r.chance(1, 3) {
            self.kw("NIL");
            return vec![];
        }
        self.s("(");
        let v = self.list(1, 3, "", |g| {
            g.s("(");
            let prefix = g.string();
            g.sp();
            let delimiter = g.delim();
            let n = if g.r.bool() { 0 } else { g.few(1, 2) };
            let extensions = g.times(n, |g| {
                    g.c("namespace:extension");
                    g.sp();
                    let key = g.string();
                    g.s(" (");
                    let values = g.vec1(3, " ", |g| g.string());
                    g.s(")");
                    NamespaceResponseExtension { key, values }
                });
            g.s(")");
            Namespace {
                prefix,
                delimiter,
                extensions,
            }
        });
        self.s(")");
        v
    }
    pub fn thread(&mut self, depth: usize) -> Thread {
        self.s("(");
        let dig = self.dig(depth);
        let t = if depth > 0 && self.r.chance(1, if dig { 2 } else { 4 }) {
            let n = self.few(2, 3);
            self.dig = dig;
            let v: Vec<_> = self.times(n, |g| g.thread(depth - 1));
            Thread::Nested {
                answers: Vec2::try_from(v).unwrap(),
            }
        } else {
            let prefix = self.vec1(4, " ", |g| g.nz());
            let answers = if depth > 0 && (dig || self.r.bool()) {
                self.sp();
                let n = self.few(2, 3);
                self.dig = dig;
                let v: Vec<_> = self.times(n, |g| g.thread(depth - 1));
                Some(Vec2::try_from(v).unwrap())
            } else {
                None
            };
            Thread::Members { prefix, answers }
        };
        self.s(")");
        t
    }
    pub fn fetch_item(&mut self) -> MessageDataItem<'static> {
        use MessageDataItem as M;
        let k = self.r.below(if EXT { 17 } else { 16 });
        match k {
            0 | 13 => {
                self.c("item:BODY");
                self.kw("BODY");
                self.sp();
                self.dig = self.r.chance(1, 10);
                let d = if self.dig { 6 } else { 4 };
                M::Body(self.body_structure(d, true))
            }
            1 | 14 => {
                self.c("item:BODYSTRUCTURE");
                self.kw("BODYSTRUCTURE");
                self.sp();
                self.dig = self.r.chance(1, 20);
                let d = if self.dig { 6 } else { 3 };
                M::BodyStructure(self.body_structure(d, false))
            }
            2 | 15 => {
                self.c("item:BODY[]");
                self.kw("BODY");
                let section = self.opt_section();
                let origin = if self.r.chance(1, 3) {
                    self.s("<");
                    let n = self.num();
                    self.s(">");
                    Some(n)
                } else {
                    None
                };
                self.sp();
                let data = self.nstring();
                M::BodyExt { section, origin, data }
            }
            3 => {
                self.c("item:ENVELOPE");
                self.kw("ENVELOPE");
                self.sp();
                M::Envelope(self.envelope())
            }
            4 => {
                self.c("item:FLAGS");
                self.kw("FLAGS");
                self.s(" (");
                let v = self.list(0, 4, " ", |g| g.flag_fetch());
                self.s(")");
                M::Flags(v)
            }
            5 => {
                self.c("item:INTERNALDATE");
                self.kw("INTERNALDATE");
                self.sp();
                M::InternalDate(self.datetime())
            }
            6 => {
                self.c("item:RFC822");
                self.kw("RFC822");
                self.sp();
                M::Rfc822(self.nstring())
            }
            7 => {
                self.c("item:RFC822.HEADER");
                self.kw("RFC822.HEADER");
                self.sp();
                M::Rfc822Header(self.nstring())
            }
            8 => {
                self.c("item:RFC822.SIZE");
                self.kw("RFC822.SIZE");
                self.sp();
                M::Rfc822Size(self.num())
            }
            9 => {
                self.c("item:RFC822.TEXT");
                self.kw("RFC822.TEXT");
                self.sp();
                M::Rfc822Text(self.nstring())
            }
            10 => {
                self.c("item:UID");
                self.kw("UID");
                self.sp();
                M::Uid(self.nz())
            }
            11 => {
                self.c("item:BINARY");
                self.kw("BINARY");
                let section = self.binary_section();
                self.sp();
                let value = self.nstring8();
                M::Binary { section, value }
            }
            12 => {
                self.c("item:BINARY.SIZE");
                self.kw("BINARY.SIZE");
                let section = self.binary_section();
                self.sp();
                let size = self.num();
                M::BinarySize { section, size }
            }
            #[cfg(feature = "ext")]
            _ => {
                self.c("item:MODSEQ");
                self.kw("MODSEQ");
                self.s(" (");
                let v = self.nz64();
                self.s(")");
                M::ModSeq(v)
            }
            #[cfg(not(feature = "ext"))]
            _ => unreachable!(),
        }
    }
    pub fn address(&mut self) -> Address<'static> {
        self.s("(");
        let name = self.nstring();
        self.sp();
        let adl = self.nstring();
        self.sp();
        let mailbox = self.nstring();
        self.sp();
        let host = self.nstring();
        self.s(")");
        Address {
            name,
            adl,
            mailbox,
            host,
        }
    }
    pub fn addresses(&mut self) -> Vec<Address<'static>> {
        let at = self.canon.len;
        let v = self.addresses_();
        self.mark_since(M::Addresses, at);
        v
    }
    fn addresses_(&mut self) -> Vec<Address<'static>> {
        if self.r.chance(2, 5) {
            self.kw("NIL");
            return vec![];
        }
        self.s("(");
        let mut first = true;
        let hi = if self.dev == Some(Dev::AddressSpace) { 4 } else { 2 };
        let v = self.list(1, hi, "", |g| {
            if !first && g.dev(Dev::AddressSpace) {
                let n = g.r.range(1, 3);
                g.both(&b"   "[..n]);
            }
            first = false;
            g.address()
        });
        self.s(")");
        v
    }
    pub fn envelope(&mut self) -> Envelope<'static> {
        self.c("envelope");
        self.s("(");
        let date = self.nstring();
        self.sp();
        let subject = self.nstring();
        self.sp();
        let from = self.addresses();
        self.sp();
        let sender = self.addresses();
        self.sp();
        let reply_to = self.addresses();
        self.sp();
        let to = self.addresses();
        self.sp();
        let cc = self.addresses();
        self.sp();
        let bcc = self.addresses();
        self.sp();
        let in_reply_to = self.nstring();
        self.sp();
        let message_id = self.nstring();
        self.s(")");
        Envelope {
            date,
            subject,
            from,
            sender,
            reply_to,
            to,
            cc,
            bcc,
            in_reply_to,
            message_id,
        }
    }
    pub fn params(&mut self) -> Vec<(IString<'static>, IString<'static>)> {
        let at = self.canon.len;
        let v = self.params_();
        self.mark_since(M::Params, at);
        v
    }
    fn params_(&mut self) -> Vec<(IString<'static>, IString<'static>)> {
        if self.r.chance(1, 3) {
            self.kw("NIL");
            return vec![];
        }
        self.s("(");
        let v = self.list(1, 3, " ", |g| {
            let k = g.string();
            g.sp();
            (k, g.string())
        });
        self.s(")");
        v
    }
    pub fn basic_fields(&mut self) -> BasicFields<'static> {
        let parameter_list = self.params();
        self.sp();
        let id = self.nstring();
        self.sp();
        let description = self.nstring();
        self.sp();
        let content_transfer_encoding = if self.dev(Dev::NilEncoding) {
            self.kw("NIL");
            IString::Quoted(Quoted::try_from("").unwrap())
        } else {
            if cfg!(feature = "q_body_fld_enc_nil_to_empty") { self.istring() } else { self.string() }
        };
        self.sp();
        let size = if self.dev(Dev::NegativeOctets) {
            self.s("-");
            self.num();
            0
        } else {
            let v = self.raw_u32();
            self.mark(M::Octets, v.to_string().len());
            self.wnum(v as u64);
            v
        };
        BasicFields {
            parameter_list,
            id,
            description,
            content_transfer_encoding,
            size,
        }
    }
    pub fn body_structure(&mut self, depth: usize, no_ext: bool) -> BodyStructure<'static> {
        self.s("(");
        let dig = self.dig(depth);
        let b = if depth > 0 && self.r.chance(1, if dig { 2 } else { 3 }) {
            self.c("body:multi");
            let n = if self.r.chance(1, 3) { 1 } else { self.few(1, 3) };
            self.dig = dig;
            let bodies: Vec<_> = self.times(n, |g| g.body_structure(depth - 1, no_ext));
            self.sp();
            let subtype = self.string();
            let extension_data = if !no_ext && self.r.bool() {
                self.c("body:multi-ext");
                self.sp();
                let parameter_list = self.params();
                let tail = self.disposition();
                Some(MultiPartExtensionData { parameter_list, tail })
            } else {
                None
            };
            BodyStructure::Multi {
                bodies: Vec1::try_from(bodies).unwrap(),
                subtype,
                extension_data,
            }
        } else {
            let body = match if dig { 2 } else { self.r.below(if depth > 0 { 3 } else { 2 }) } {
                0 => {
                    self.c("body:basic");
                    let (t, st) = loop {
                        let save = (self.canon.clone(), self.styled.clone(), self.marks.len());
                        let t = if self.r.chance(1, 4) {
                            let m = *self.r.pick(&["MESSAGE", "message", "APPLICATION", "image"]);
                            self.wquoted(m);
                            IString::Quoted(Quoted::try_from(m.to_string()).unwrap())
                        } else {
                            self.string()
                        };
                        self.sp();
                        let st = self.string();
                        if t.as_ref().eq_ignore_ascii_case(b"text")
                            || t.as_ref().eq_ignore_ascii_case(b"message") && st.as_ref().eq_ignore_ascii_case(b"rfc822")
                        {
                            self.canon = save.0;
                            self.styled = save.1;
                            self.marks.truncate(save.2);
                            continue;
                        }
                        break (t, st);
                    };
                    self.sp();
                    let basic = self.basic_fields();
                    Body {
                        basic,
                        specific: SpecificFields::Basic {
                            r#type: t,
                            subtype: st,
                        },
                    }
                }
                1 => {
                    self.c("body:text");
                    self.kwo("\"TEXT\"");
                    self.sp();
                    let subtype = self.string();
                    self.sp();
                    let basic = self.basic_fields();
                    self.sp();
                    let number_of_lines = self.num();
                    Body {
                        basic,
                        specific: SpecificFields::Text {
                            subtype,
                            number_of_lines,
                        },
                    }
                }
                _ => {
                    self.c("body:message");
                    self.kwo("\"MESSAGE\"");
                    self.sp();
                    self.kwo("\"RFC822\"");
                    self.sp();
                    let basic = self.basic_fields();
                    self.sp();
                    let envelope = Box::new(self.envelope());
                    self.sp();
                    self.dig = dig;
                    let body_structure = Box::new(self.body_structure(depth - 1, no_ext));
                    self.sp();
                    let number_of_lines = self.num();
                    Body {
                        basic,
                        specific: SpecificFields::Message {
                            envelope,
                            body_structure,
                            number_of_lines,
                        },
                    }
                }
            };
            let extension_data = if !no_ext && self.r.bool() {
                self.c("body:single-ext");
                self.sp();
                let md5 = self.nstring();
                let tail = self.disposition();
                Some(SinglePartExtensionData { md5, tail })
            } else {
                None
            };
            BodyStructure::Single { body, extension_data }
        };
        self.s(")");
        b
    }
    pub fn disposition(&mut self) -> Option<Disposition<'static>> {
        if self.r.chance(1, 3) {
            return None;
        }
        self.c("body:disposition");
        self.sp();
        let at = self.canon.len;
        let disposition = if self.r.chance(1, 3) {
            self.kw("NIL");
            None
        } else {
            self.s("(");
            let s = self.string();
            self.sp();
            let p = self.params();
            self.s(")");
            Some((s, p))
        };
        self.mark_since(M::Disposition, at);
        let tail = if self.r.chance(1, 3) {
            None
        } else {
            self.c("body:language");
            self.sp();
            let at = self.canon.len;
            let language = match self.r.below(3) {
                0 => {
                    self.kw("NIL");
                    vec![]
                }
                1 => {
                    let bare = self.style(1, 2);
                    self.canon.push(b"(");
                    if bare {
                        self.c("style:language-bare");
                    } else {
                        self.styled.push(b"(");
                    }
                    let v = vec![self.istring()];
                    self.canon.push(b")");
                    if !bare {
                        self.styled.push(b")");
                    }
                    v
                }
                _ => {
                    self.s("(");
                    let v = self.list(2, 3, " ", |g| g.string());
                    self.s(")");
                    v
                }
            };
            self.mark_since(M::Languages, at);
            let tail = if self.r.chance(1, 3) {
                None
            } else {
                self.c("body:location");
                self.sp();
                let location = self.nstring();
                let n = if self.r.bool() { 0 } else { self.few(1, 3) };
                let extensions = self.times(n, |g| {
                        g.sp();
                        g.dig = g.r.chance(1, 20);
                        let d = if g.dig { 7 } else { 3 };
                        g.body_extension(d)
                    });
                Some(Location { location, extensions })
            };
            Some(Language { language, tail })
        };
        Some(Disposition { disposition, tail })
    }
    pub fn body_extension(&mut self, depth: usize) -> BodyExtension<'static> {
        self.c("body:extension");
        let dig = self.dig(depth);
        match if dig { 2 } else { self.r.below(if depth > 0 { 3 } else { 2 }) } {
            0 => BodyExtension::NString(self.nstring()),
            1 => BodyExtension::Number(self.num()),
            _ => {
                self.s("(");
                self.dig = dig;
                let v = self.vec1(3, " ", |g| g.body_extension(depth - 1));
                self.s(")");
                BodyExtension::List(v)
            }
        }
    }
    pub fn response(&mut self) -> Response<'static> {
        match self.r.below(10) {
            0 => Response::CommandContinuationRequest(self.continuation()),
            1..=3 => Response::Status(self.status()),
            _ => Response::Data(self.data(None)),
        }
    }
    pub fn idle_done(&mut self) {
        self.c("idle-done");
        self.kw("DONE");
        self.crlf();
    }
}

pub const MONTHS: [&str; 12] = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"];

fn recase(s: &str, k: usize) -> String {
    match k {
        0 => s.to_string(),
        1 => s.to_ascii_lowercase(),
        _ => s.to_ascii_uppercase(),
    }
}

pub fn days_in_month(y: i32, m: u32) -> u32 {
    match m {
        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
        4 | 6 | 9 | 11 => 30,
        2 if y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) => 29,
        2 => 28,
        _ => 0,
    }
}

pub const AUTHS: &[(&str, AuthMechanism<'static>)] = &[
    ("PLAIN", AuthMechanism::Plain),
    ("LOGIN", AuthMechanism::Login),
    ("OAUTHBEARER", AuthMechanism::OAuthBearer),
    ("XOAUTH2", AuthMechanism::XOAuth2),
    ("SCRAM-SHA-1", AuthMechanism::ScramSha1),
    ("SCRAM-SHA-1-PLUS", AuthMechanism::ScramSha1Plus),
    ("SCRAM-SHA-256", AuthMechanism::ScramSha256),
    ("SCRAM-SHA-256-PLUS", AuthMechanism::ScramSha256Plus),
    ("SCRAM-SHA3-512", AuthMechanism::ScramSha3_512),
    ("SCRAM-SHA3-512-PLUS", AuthMechanism::ScramSha3_512Plus),
];

pub const SORT_KEYS: &[(&str, SortKey)] = &[
    ("ARRIVAL", SortKey::Arrival),
    ("CC", SortKey::Cc),
    ("DATE", SortKey::Date),
    ("FROM", SortKey::From),
    ("SIZE", SortKey::Size),
    ("SUBJECT", SortKey::Subject),
    ("TO", SortKey::To),
    ("DISPLAYFROM", SortKey::DisplayFrom),
    ("DISPLAYTO", SortKey::DisplayTo),
];

const SEARCH_COV: [&str; 39] = [
    "key:ALL", "key:ANSWERED", "key:DELETED", "key:DRAFT", "key:FLAGGED", "key:NEW", "key:OLD", "key:RECENT", "key:SEEN", "key:UNANSWERED",
    "key:UNDELETED", "key:UNDRAFT", "key:UNFLAGGED", "key:UNSEEN", "key:BCC", "key:BODY", "key:CC", "key:FROM", "key:SUBJECT", "key:TEXT",
    "key:TO", "key:BEFORE", "key:ON", "key:SINCE", "key:SENTBEFORE", "key:SENTON", "key:SENTSINCE", "key:HEADER", "key:KEYWORD",
    "key:UNKEYWORD", "key:LARGER", "key:SMALLER", "key:UID", "key:SEQSET", "key:NOT", "key:OR", "key:AND", "key:SEQSET", "key:MODSEQ",
];

pub fn plain_capabilities() -> Vec<(&'static str, Capability<'static>)> {
    use Capability as C;
    vec![
        ("IMAP4REV1", C::Imap4Rev1),
        ("LOGINDISABLED", C::LoginDisabled),
        ("IDLE", C::Idle),
        ("SASL-IR", C::SaslIr),
        ("ENABLE", C::Enable),
        ("QUOTA", C::Quota),
        ("QUOTASET", C::QuotaSet),
        ("LITERAL+", C::LiteralPlus),
        ("LITERAL-", C::LiteralMinus),
        ("MOVE", C::Move),
        ("UNSELECT", C::Unselect),
        ("SORT", C::Sort(None)),
        ("BINARY", C::Binary),
        ("UIDPLUS", C::UidPlus),
        #[cfg(feature = "ext")]
        ("STARTTLS", C::StartTls),
        #[cfg(feature = "ext")]
        ("MAILBOX-REFERRALS", C::MailboxReferrals),
        #[cfg(feature = "ext")]
        ("LOGIN-REFERRALS", C::LoginReferrals),
        #[cfg(feature = "ext")]
        ("ID", C::Id),
        #[cfg(feature = "ext")]
        ("METADATA", C::Metadata),
        #[cfg(feature = "ext")]
        ("METADATA-SERVER", C::MetadataServer),
        #[cfg(feature = "ext")]
        ("CONDSTORE", C::CondStore),
        #[cfg(feature = "ext")]
        ("QRESYNC", C::QResync),
        #[cfg(feature = "ext")]
        ("NAMESPACE", C::Namespace),
        #[cfg(feature = "ext")]
        ("UTF8=ACCEPT", C::Utf8(Utf8Kind::Accept)),
        #[cfg(feature = "ext")]
        ("UTF8=ONLY", C::Utf8(Utf8Kind::Only)),
    ]
}

// ----- sequence set model -----

pub const STAR: u64 = 1 << 40;

pub fn seq_val(s: &SeqOrUid) -> u64 {
    match s {
        SeqOrUid::Value(v) => v.get() as u64,
        SeqOrUid::Asterisk => STAR,
    }
}
fn val_seq(v: u64) -> SeqOrUid {
    if v == STAR {
        SeqOrUid::Asterisk
    } else {
        SeqOrUid::Value(NonZeroU32::new(v as u32).unwrap())
    }
}

/// Reference normalisation: sort and merge overlapping or adjacent ranges, `*` being larger than every number.
pub fn normalise_model(raw: &[Sequence]) -> Vec<Sequence> {
    let mut iv: Vec<(u64, u64)> = raw
        .iter()
        .map(|s| match s {
            Sequence::Single(a) => (seq_val(a), seq_val(a)),
            Sequence::Range(a, b) => {
                let (a, b) = (seq_val(a), seq_val(b));
                (a.min(b), a.max(b))
            }
        })
        .collect();
    iv.sort();
    let mut out: Vec<(u64, u64)> = Vec::new();
    for (a, b) in iv {
        match out.last_mut() {
            Some((_, pb)) if a <= pb.saturating_add(1) => *pb = (*pb).max(b),
            _ => out.push((a, b)),
        }
    }
    out.into_iter()
        .map(|(a, b)| {
            if a == b {
                Sequence::Single(val_seq(a))
            } else {
                Sequence::Range(val_seq(a), val_seq(b))
            }
        })
        .collect()
}

pub fn seq_text(s: &[Sequence]) -> String {
    pub fn v(s: &SeqOrUid) -> String {
        match s {
            SeqOrUid::Value(v) => v.to_string(),
            SeqOrUid::Asterisk => "*".into(),
        }
    }
    s.iter()
        .map(|s| match s {
            Sequence::Single(a) => v(a),
            Sequence::Range(a, b) => format!("{}:{}", v(a), v(b)),
        })
        .collect::<Vec<_>>()
        .join(",")
}

/// A generated message with its reference wires.
pub struct Case<T> {
    pub value: T,
    pub normed: T,
    pub canon: Wire,
    pub styled: Wire,
    pub cov: BTreeMap<&'static str, u64>,
    pub marks: Vec<Mark>,
    pub code_marks: Vec<Mark>,
    pub code_at: Option<(usize, usize)>,
}

pub fn case<T>(seed: u64, f: impl Fn(&mut G) -> T) -> Case<T> {
    let mut g = G::new(seed, false);
    let value = f(&mut g);
    let mut n = G::new(seed, true);
    let normed = f(&mut n);
    assert_eq!(g.canon, n.canon, "generator is not deterministic");
    Case {
        value,
        normed,
        canon: g.canon,
        styled: g.styled,
        cov: g.cov,
        marks: g.marks,
        code_marks: g.code_marks,
        code_at: g.code_at,
    }
}
