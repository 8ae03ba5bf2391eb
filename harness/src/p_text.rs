//! C28 (printed forms), C29 (comparing and hashing), C30 (refusals).
use std::{
    cmp::Ordering,
    collections::hash_map::DefaultHasher,
    hash::{Hash, Hasher},
    num::NonZeroU32,
};

use chrono::{Datelike, FixedOffset, TimeZone};
use imap_types::{
    auth::AuthMechanism,
    command::{
        CommandBody,
        error::{AppendError, CopyError, ListError, LoginError, RenameError},
    },
    core::{AString, Atom, AtomExt, IString, Literal, NString, Quoted, QuotedChar, Tag, Text, Vec1, Vec2},
    datetime::{
        DateTime, NaiveDate,
        error::{DateTimeError, NaiveDateError},
    },
    error::ValidationError,
    extensions::{
        compress::CompressionAlgorithm,
        enable::CapabilityEnable,
        quota::{QuotaGet, Resource},
        sort::SortAlgorithm,
        thread::{Thread, ThreadingAlgorithm},
    },
    fetch::{Macro, MacroOrMessageDataItemNames, MessageDataItem, MessageDataItemName},
    flag::{Flag, FlagNameAttribute},
    mailbox::{ListCharString, ListMailbox, Mailbox, MailboxOther, error::MailboxOtherError},
    response::{
        Capability, CommandContinuationRequest, Data, Response, Status, StatusBody, StatusKind,
        error::{ContinueError, FetchError},
    },
    search::SearchKey,
    sequence::{SeqOrUid, Sequence, SequenceSet},
    utils::{escape_byte_string, escape_quoted, indicators, unescape_quoted},
};

use crate::{
    Prop,
    ctx::{Ctx, cut},
    msg::{Dec, Msg, decode},
    mutate, p_codec,
    p_types::*,
    rng::{Rng, mix},
    wire::show,
};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C28", fixed: Some(c28_fixed), case: c28, quick: 1_200_000, thorough: 40_000_000 },
        Prop { id: "C29", fixed: Some(c29_fixed), case: c29, quick: 900_000, thorough: 30_000_000 },
        Prop { id: "C30", fixed: Some(c30_fixed), case: c30, quick: 1_200_000, thorough: 40_000_000 },
    ]
}

// ----- C28 -----

fn cmd(body: CommandBody<'static>) -> Msg {
    Msg::Command(imap_types::command::Command { tag: Tag::unvalidated("A"), body })
}
fn data(d: Data<'static>) -> Msg {
    Msg::Response(Response::Data(d))
}
/// The message is sent as `want`, which was put together from printed parts.
fn sent(ctx: &mut Ctx, what: &str, m: Msg, want: String) {
    ctx.c(what);
    let got = m.dump();
    ctx.check(got == want.as_bytes(), &format!("printed form of {what} is not what is sent"), want.as_bytes(), || format!("sent {}, printed {}", show(&got), show(want.as_bytes())));
}

fn thread_text(t: &Thread, out: &mut String) {
    // thread-list = "(" (thread-members / thread-nested) ")"
    out.push('(');
    match t {
        Thread::Members { prefix, answers } => {
            for (i, p) in prefix.as_ref().iter().enumerate() {
                if i > 0 {
                    out.push(' ');
                }
                out.push_str(&p.to_string());
            }
            if let Some(a) = answers {
                out.push(' ');
                for a in a.as_ref() {
                    thread_text(a, out);
                }
            }
        }
        Thread::Nested { answers } => {
            for a in answers.as_ref() {
                thread_text(a, out);
            }
        }
    }
    out.push(')');
}

fn printed_names(ctx: &mut Ctx, name: &str) {
    ctx.eval(name.as_bytes());
    let b = name.as_bytes();
    if let Ok(f) = Flag::try_from(name) {
        let f = bounded_static::ToBoundedStatic::to_static(&f);
        let p = f.to_string();
        ctx.check(p.eq_ignore_ascii_case(name), "printed flag differs from its name", b, || p.clone());
        ctx.check(Flag::try_from(p.as_str()) == Ok(f.clone()), "printed flag reads as another flag", b, || p.clone());
        sent(ctx, "Flag", data(Data::Flags(vec![f])), format!("* FLAGS ({p})\r\n"));
    }
    #[cfg(feature = "ext")]
    {
        use imap_types::extensions::condstore_qresync::{AttributeFlag, EntryTypeReq};
        let doubled = if let Some(n) = name.strip_prefix('\\') { format!("\\\\{n}") } else { name.to_string() };
        if let Ok(f) = AttributeFlag::try_from(doubled.as_str()) {
            let f: AttributeFlag<'static> = bounded_static::ToBoundedStatic::to_static(&f);
            let p = f.to_string();
            ctx.check(p.eq_ignore_ascii_case(&doubled), "printed flag differs from its name", b, || p.clone());
            ctx.check(AttributeFlag::try_from(p.as_str()) == Ok(f.clone()), "printed flag reads as another flag", b, || p.clone());
            for (e, n) in [(EntryTypeReq::Private, "priv"), (EntryTypeReq::Shared, "shared"), (EntryTypeReq::All, "all")] {
                ctx.check(e.to_string() == n, "printed entry type", b, || e.to_string());
                let key = SearchKey::ModSequence { entry: Some((f.clone(), e)), modseq: 7 };
                sent(ctx, "AttributeFlag", cmd(CommandBody::search(None, Vec1::from(key), false)), format!("A SEARCH MODSEQ \"/flags/{p}\" {n} 7\r\n"));
            }
        }
    }
    let Ok(a) = Atom::try_from(name.to_string()) else { return };
    ctx.check(a.to_string() == name && a.inner() == name, "printed atom", b, || a.to_string());
    sent(ctx, "Atom", cmd(CommandBody::search(None, Vec1::from(SearchKey::Keyword(a.clone())), false)), format!("A SEARCH KEYWORD {a}\r\n"));
    let x = FlagNameAttribute::from(a.clone());
    let p = x.to_string();
    ctx.check(p.eq_ignore_ascii_case(&format!("\\{name}")), "printed attribute differs from its name", b, || p.clone());
    sent(ctx, "FlagNameAttribute", data(Data::List { items: vec![x], delimiter: None, mailbox: Mailbox::Inbox }), format!("* LIST ({p}) NIL INBOX\r\n"));
    let x = Capability::from(a.clone());
    let p = x.to_string();
    sent(ctx, "Capability", data(Data::Capability(Vec1::from(x))), format!("* CAPABILITY {p}\r\n"));
    let x = AuthMechanism::from(a.clone());
    let p = x.to_string();
    sent(ctx, "AuthMechanism", cmd(CommandBody::authenticate(x)), format!("A AUTHENTICATE {p}\r\n"));
    let x = Resource::from(a.clone());
    let p = x.to_string();
    let q = QuotaGet { resource: x, usage: 1, limit: 2 };
    sent(ctx, "Resource", data(Data::Quota { root: AString::try_from("r").unwrap(), quotas: Vec1::from(q) }), format!("* QUOTA r ({p} 1 2)\r\n"));
    let x = ThreadingAlgorithm::from(a.clone());
    let p = x.to_string();
    sent(
        ctx,
        "ThreadingAlgorithm",
        cmd(CommandBody::Thread { algorithm: x, charset: imap_types::core::Charset::try_from("X").unwrap(), search_criteria: Vec1::from(SearchKey::All), uid: false }),
        format!("A THREAD {p} X ALL\r\n"),
    );
    let x = SortAlgorithm::from(a.clone());
    let p = x.to_string();
    ctx.check(p.eq_ignore_ascii_case(name), "printed sort algorithm", b, || p.clone());
    sent(ctx, "SortAlgorithm", data(Data::Capability(Vec1::from(Capability::Sort(Some(x))))), format!("* CAPABILITY SORT={p}\r\n"));
    let x = CapabilityEnable::from(a);
    let p = x.to_string();
    sent(ctx, "CapabilityEnable", cmd(CommandBody::enable(Vec1::from(x.clone())).unwrap()), format!("A ENABLE {p}\r\n"));
    sent(ctx, "CapabilityEnable", data(Data::Enabled { capabilities: vec![x] }), format!("* ENABLED {p}\r\n"));
}

fn escapes(ctx: &mut Ctx, s: &str) {
    let want: String = s.chars().flat_map(|c| if c == '"' || c == '\\' { vec!['\\', c] } else { vec![c] }).collect();
    let got = escape_quoted(s);
    ctx.check(got == want, "escape_quoted", s.as_bytes(), || got.to_string());
    let back = unescape_quoted(&want);
    ctx.check(back == s, "unescape_quoted does not undo escape_quoted", s.as_bytes(), || back.to_string());
    ctx.c("escapes");
}

/// Reads an escaped byte string back; every byte must be told apart.
fn unescape_bytes(t: &str) -> Option<Vec<u8>> {
    let mut out = Vec::new();
    let mut c = t.bytes();
    while let Some(b) = c.next() {
        out.push(match b {
            b'\\' => match c.next()? {
                b't' => b'\t',
                b'n' => b'\n',
                b'r' => b'\r',
                x @ (b'\\' | b'"') => x,
                b'x' => {
                    let h = [c.next()?, c.next()?];
                    if !h.iter().all(|h| h.is_ascii_hexdigit()) {
                        return None;
                    }
                    u8::from_str_radix(std::str::from_utf8(&h).ok()?, 16).ok()?
                }
                _ => return None,
            },
            b'"' => return None,
            0x20..=0x7e => b,
            _ => return None,
        });
    }
    Some(out)
}
fn byte_strings(ctx: &mut Ctx, b: &[u8]) {
    let t = escape_byte_string(b);
    let back = unescape_bytes(&t);
    ctx.check(back.as_deref() == Some(b), "escape_byte_string is not printable or loses bytes", b, || t.clone());
    // What needs no escape stays readable.
    if b.iter().all(|b| (0x20..=0x7e).contains(b) && *b != b'"' && *b != b'\\') {
        ctx.check(t.as_bytes() == b, "escape_byte_string escapes plain text", b, || t.clone());
    }
    ctx.c("byte-strings");
}

fn c28_fixed(ctx: &mut Ctx) {
    for n in known_names() {
        for n in [n.clone(), n.to_ascii_lowercase(), n.to_ascii_uppercase(), format!("\\{n}"), format!("\\{}", n.to_ascii_lowercase())] {
            printed_names(ctx, &n);
        }
    }
    for a in 0..=255u8 {
        byte_strings(ctx, &[a]);
        for b in 0..=255u8 {
            byte_strings(ctx, &[a, b]);
        }
        // RFC 3501 section 9.
        let ctl = a < 0x20 || a == 0x7f;
        let chr = (1..=0x7f).contains(&a);
        let quoted_specials = a == b'"' || a == b'\\';
        let wild = a == b'%' || a == b'*';
        let atom_specials = b"(){ ".contains(&a) && a != b')' || a == b')' || ctl || wild || quoted_specials || a == b']';
        let atom = chr && !atom_specials;
        let text = chr && a != b'\r' && a != b'\n';
        for (n, got, want) in [
            ("is_char", indicators::is_char(a), chr),
            ("is_ctl", indicators::is_ctl(a), ctl),
            ("is_quoted_specials", indicators::is_quoted_specials(a), quoted_specials),
            ("is_list_wildcards", indicators::is_list_wildcards(a), wild),
            ("is_resp_specials", indicators::is_resp_specials(a), a == b']'),
            ("is_atom_specials", indicators::is_atom_specials(a), atom_specials),
            ("is_atom_char", indicators::is_atom_char(a), atom),
            ("is_astring_char", indicators::is_astring_char(a), atom || a == b']'),
            ("is_char8", indicators::is_char8(a), a != 0),
            ("is_text_char", indicators::is_text_char(a), text),
            ("is_list_char", indicators::is_list_char(a), atom || wild || a == b']'),
        ] {
            ctx.check(got == want, n, &[a], || format!("{n}({a:#04x}) is {got}"));
            ctx.tick();
        }
    }
    // Every string of up to six characters out of three.
    for len in 0..=6u32 {
        for k in 0..3usize.pow(len) {
            let s: String = (0..len).map(|i| ['"', '\\', 'a'][k / 3usize.pow(i) % 3]).collect();
            escapes(ctx, &s);
        }
    }
    use MessageDataItemName::*;
    for (m, n, want) in [
        (Macro::All, "ALL", vec![Flags, InternalDate, Rfc822Size, Envelope]),
        (Macro::Fast, "FAST", vec![Flags, InternalDate, Rfc822Size]),
        (Macro::Full, "FULL", vec![Flags, InternalDate, Rfc822Size, Envelope, Body]),
    ] {
        ctx.check(m.to_string() == n, "printed macro", n.as_bytes(), || m.to_string());
        let mut got = m.expand();
        let mut want = want;
        got.sort_by_key(|x| format!("{x:?}"));
        want.sort_by_key(|x| format!("{x:?}"));
        ctx.check(got == want, "macro stands for other items", n.as_bytes(), || format!("{got:?}"));
        sent(ctx, "Macro", cmd(CommandBody::fetch(1u32, MacroOrMessageDataItemNames::Macro(m), false).unwrap()), format!("A FETCH 1 {n}\r\n"));
    }
    sent(ctx, "CompressionAlgorithm", cmd(CommandBody::Compress { algorithm: CompressionAlgorithm::Deflate }), format!("A COMPRESS {}\r\n", CompressionAlgorithm::Deflate));
    ctx.c("enumerated");
}

fn printed_message(ctx: &mut Ctx, m: &Msg) {
    let Msg::Response(Response::Data(d)) = m else { return };
    let wire = m.dump();
    let (what, want) = match d {
        Data::Thread(t) if !t.is_empty() => {
            for t in t {
                let mut want = String::new();
                thread_text(t, &mut want);
                ctx.check(t.to_string() == want, "printed thread", want.as_bytes(), || t.to_string());
            }
            ("Thread", format!("* THREAD {}\r\n", t.iter().map(|t| t.to_string()).collect::<String>()))
        }
        Data::Capability(c) => ("Capabilities", format!("* CAPABILITY {}\r\n", c.as_ref().iter().map(|c| c.to_string()).collect::<Vec<_>>().join(" "))),
        Data::Flags(f) => ("Flags", format!("* FLAGS ({})\r\n", f.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(" "))),
        _ => return,
    };
    ctx.eval(&wire);
    ctx.c(what);
    ctx.check(wire == want.as_bytes(), "printed parts are not what is sent", &wire, || want.clone());
}

fn c28(ctx: &mut Ctx, seed: u64) {
    let mut r = Rng::new(seed);
    match r.below(6) {
        0 => {
            let names = known_names();
            let n = r.pick(&names).clone();
            let n = recase(&mut r, &n);
            let n = match r.below(4) {
                0 => format!("\\{n}"),
                1 => format!("{}={n}", r.pick(&["AUTH", "THREAD", "SORT", "QUOTA=RES-X", "UTF8", "COMPRESS"])),
                2 => format!("{n}{}", r.range(0x21, 0x7e) as u8 as char),
                _ => n,
            };
            ctx.current = n.clone().into_bytes();
            printed_names(ctx, &n);
        }
        1 => {
            let n = r.range(1, 20);
            let n: String = (0..n).map(|_| r.range(0x21, 0x7e) as u8 as char).collect();
            let n = if r.chance(1, 4) { format!("\\{n}") } else { n };
            ctx.current = n.clone().into_bytes();
            printed_names(ctx, &n);
        }
        2 => {
            let b = content(&mut r);
            ctx.current = b.clone();
            ctx.eval(&b);
            byte_strings(ctx, &b);
            escapes(ctx, &String::from_utf8_lossy(&b));
            if let Ok(t) = Text::try_from(b.clone()) {
                ctx.check(t.to_string().as_bytes() == b, "printed text", &b, || t.to_string());
                if !b.starts_with(b"[") {
                    let p = t.to_string();
                    sent(ctx, "Text", Msg::Response(Response::Status(Status::Untagged(StatusBody { kind: StatusKind::Ok, code: None, text: t }))), format!("* OK {p}\r\n"));
                }
            }
        }
        3 => {
            let n = r.below(40);
            let s: String = (0..n).map(|_| *r.pick(&['"', '\\', 'a', ' ', 'é', '\u{1F600}', '\n', '\0', 'x'])).collect();
            ctx.current = s.clone().into_bytes();
            ctx.eval(s.as_bytes());
            escapes(ctx, &s);
            byte_strings(ctx, s.as_bytes());
        }
        _ => {
            let c = p_codec::any(mix(seed) | 1);
            ctx.current = c.canon.bytes();
            printed_message(ctx, &c.value);
        }
    }
}

// ----- C29 -----

fn hash(m: &Msg) -> u64 {
    let mut h = DefaultHasher::new();
    match m {
        Msg::Greeting(m) => m.hash(&mut h),
        Msg::Command(m) => m.hash(&mut h),
        Msg::Auth(m) => m.hash(&mut h),
        Msg::Response(m) => m.hash(&mut h),
        Msg::Idle(m) => m.hash(&mut h),
    }
    h.finish()
}
fn hash1<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
fn has_time(d: &str) -> bool {
    // Times are equal as instants, whatever their zone.
    d.contains("InternalDate(") || d.contains("date: Some(")
}

fn pair(ctx: &mut Ctx, a: &Msg, b: &Msg, key: &[u8]) {
    let (da, db) = (format!("{a:?}"), format!("{b:?}"));
    let eq = a == b;
    ctx.eval(key);
    ctx.c(if eq { "equal" } else { "different" });
    ctx.check(eq == (b == a) && eq == !(a != b), "equality is not symmetric", key, || cut(&da));
    if da == db {
        ctx.check(eq, "messages with the same parts are not equal", key, || cut(&da));
    } else if !has_time(&da) {
        ctx.check(!eq, "messages with different parts are equal", key, || format!("{}\n{}", cut(&da), cut(&db)));
    }
    if eq {
        ctx.check(hash(a) == hash(b), "equal messages hash differently", key, || cut(&da));
        if !has_time(&da) {
            ctx.check(a.dump() == b.dump(), "equal messages are sent differently", key, || cut(&da));
        }
    }
}

/// Positions on the number line; `*` is above all numbers.
fn pos(s: &SeqOrUid) -> u64 {
    match s {
        SeqOrUid::Value(n) => n.get() as u64,
        SeqOrUid::Asterisk => 1 << 40,
    }
}
fn span(s: &Sequence) -> (u64, u64) {
    match s {
        Sequence::Single(a) => (pos(a), pos(a)),
        Sequence::Range(a, b) => (pos(a).min(pos(b)), pos(a).max(pos(b))),
    }
}
fn ends(ctx: &mut Ctx, a: SeqOrUid, b: SeqOrUid) {
    let key = format!("{a:?} {b:?}");
    ctx.eval(key.as_bytes());
    ctx.c("ends");
    let want = pos(&a).cmp(&pos(&b));
    ctx.check(a.cmp(&b) == want, "order of numbers", key.as_bytes(), || format!("{:?}", a.cmp(&b)));
    ctx.check(a.partial_cmp(&b) == Some(want), "partial order of numbers", key.as_bytes(), || format!("{:?}", a.partial_cmp(&b)));
    ctx.check((a == b) == (want == Ordering::Equal), "equality of numbers", key.as_bytes(), String::new);
    ctx.check((a < b) == want.is_lt() && (a > b) == want.is_gt() && (a <= b) == want.is_le() && (a >= b) == want.is_ge(), "comparison of numbers", key.as_bytes(), String::new);
    ctx.check(a.max(b) == if want.is_gt() { a } else { b } && a.min(b) == if want.is_gt() { b } else { a }, "extremes of numbers", key.as_bytes(), String::new);
    if a == b {
        ctx.check(hash1(&a) == hash1(&b), "hash of numbers", key.as_bytes(), String::new);
    }
}
fn sequences(ctx: &mut Ctx, a: &Sequence, b: &Sequence) {
    let key = format!("{a:?} {b:?}");
    ctx.eval(key.as_bytes());
    let ((al, ah), (bl, bh)) = (span(a), span(b));
    // Less: every number of `a` is below every number of `b`. Overlapping ones have no order,
    // except two equal numbers.
    let want = if ah < bl {
        Some(Ordering::Less)
    } else if al > bh {
        Some(Ordering::Greater)
    } else if matches!((a, b), (Sequence::Single(_), Sequence::Single(_))) {
        Some(Ordering::Equal)
    } else {
        None
    };
    let got = a.partial_cmp(b);
    ctx.c(match want {
        Some(Ordering::Less) => "less",
        Some(Ordering::Greater) => "greater",
        Some(Ordering::Equal) => "same",
        None => "overlapping",
    });
    ctx.check(got == want, "order of sequences", key.as_bytes(), || format!("{got:?}, want {want:?}"));
    ctx.check((a == b) == (format!("{a:?}") == format!("{b:?}")), "equality of sequences", key.as_bytes(), String::new);
}

fn c29_fixed(ctx: &mut Ctx) {
    let v = |n: u32| SeqOrUid::Value(NonZeroU32::new(n).unwrap());
    let u = [v(1), v(2), v(3), v(4), v(9), v(10), v(255), v(256), v(u32::MAX - 1), v(u32::MAX), SeqOrUid::Asterisk];
    for a in u {
        for b in u {
            ends(ctx, a, b);
        }
    }
    let mut s: Vec<Sequence> = u.iter().map(|a| Sequence::Single(*a)).collect();
    for a in u {
        for b in u {
            s.push(Sequence::Range(a, b));
        }
    }
    for a in &s {
        for b in &s {
            sequences(ctx, a, b);
        }
    }
    for (n, want) in [("Noinferiors", false), ("Noselect", true), ("Marked", true), ("Unmarked", true), ("X", false), ("Markedx", false), ("HasNoChildren", false)] {
        let a = FlagNameAttribute::from(Atom::try_from(n).unwrap());
        ctx.check(a.is_selectability() == want, "is_selectability", n.as_bytes(), || format!("{a:?}"));
    }
    ctx.c("enumerated");
}

fn c29(ctx: &mut Ctx, seed: u64) {
    let mut r = Rng::new(mix(seed ^ 29));
    if r.chance(1, 6) {
        let mut n = || match r.below(6) {
            0 => SeqOrUid::Asterisk,
            1 => SeqOrUid::Value(NonZeroU32::new(r.range(1, 6) as u32).unwrap()),
            2 => SeqOrUid::Value(NonZeroU32::new(u32::MAX - r.range(0, 3) as u32).unwrap()),
            _ => SeqOrUid::Value(NonZeroU32::new((r.next() as u32 >> r.below(32)).max(1)).unwrap()),
        };
        let (a, b, c, d) = (n(), n(), n(), n());
        ends(ctx, a, b);
        sequences(ctx, &Sequence::Range(a, b), &Sequence::Range(c, d));
        sequences(ctx, &Sequence::Single(a), &Sequence::Range(c, d));
        sequences(ctx, &Sequence::Range(a, b), &Sequence::Single(c));
        sequences(ctx, &Sequence::Single(a), &Sequence::Single(c));
        // Names order like their text.
        let (x, y) = (content(&mut r), content(&mut r));
        if let (Ok(p), Ok(q)) = (Atom::try_from(x.clone()), Atom::try_from(y.clone())) {
            ctx.check(p.cmp(&q) == x.cmp(&y) && p.partial_cmp(&q) == Some(x.cmp(&y)), "order of atoms", &x, || format!("{p:?} {q:?}"));
            ctx.c("atoms");
        }
        return;
    }
    let c = p_codec::any(seed);
    let wire = c.canon.bytes();
    ctx.current = wire.clone();
    // A copy, and one that was taken apart and put together again from other memory.
    pair(ctx, &c.value, &c.value.clone(), &wire);
    if let Dec::Ok { msg, .. } = decode(c.value.kind(), &c.value.dump()) {
        pair(ctx, &c.value, &msg, &wire);
    }
    // A message that differs a little.
    for _ in 0..3 {
        let mut m = wire.clone();
        mutate::edit(&mut r, &mut m, &wire);
        if let Dec::Ok { msg, .. } = decode(c.value.kind(), &m) {
            ctx.c("little-different");
            pair(ctx, &c.value, &msg, &m);
        }
    }
    let o = p_codec::any(mix(seed ^ 77));
    if o.value.kind() == c.value.kind() {
        pair(ctx, &c.value, &o.value, &wire);
    }
}

// ----- C30 -----

/// What an error has to say.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Cause {
    Empty,
    Byte(u8, usize),
}
fn cause(b: &[u8], empty_ok: bool, class: fn(u8) -> bool) -> Option<Cause> {
    if b.is_empty() && !empty_ok {
        return Some(Cause::Empty);
    }
    b.iter().position(|x| !class(*x)).map(|i| Cause::Byte(b[i], i))
}
fn names(e: &ValidationError, c: Cause) -> bool {
    let t = e.to_string();
    match c {
        Cause::Empty => t.contains("empty"),
        Cause::Byte(b, i) => t.contains(&format!("\\x{b:02x}'")) && t.ends_with(&format!("index {i}")),
    }
}
fn refusal(ctx: &mut Ctx, what: &str, b: &[u8], want: Option<Cause>, got: Option<ValidationError>) {
    match (want, got) {
        (None, None) => ctx.c("accepted"),
        (Some(c), Some(e)) => {
            ctx.c(if c == Cause::Empty { "empty" } else { "offending-byte" });
            ctx.check(names(&e, c), &format!("{what}: the refusal names something else"), b, || format!("{e}, want {c:?}"));
        }
        (w, g) => ctx.fail(format!("{what}: refused or accepted wrongly"), format!("{g:?}, want {w:?}"), b),
    }
}
fn atom_c(b: u8) -> bool {
    m_atom(&[b])
}
fn ext_c(b: u8) -> bool {
    m_atom_ext(&[b])
}
fn tag_c(b: u8) -> bool {
    m_tag(&[b])
}
fn text_c(b: u8) -> bool {
    m_text(&[b])
}
fn list_c(b: u8) -> bool {
    m_list(&[b])
}
fn lit_c(b: u8) -> bool {
    b != 0
}

fn refusals(ctx: &mut Ctx, b: &[u8]) {
    ctx.eval(b);
    macro_rules! go {
        ($t:ident, $empty:expr, $class:expr) => {
            let w = cause(b, $empty, $class);
            let n = stringify!($t);
            refusal(ctx, n, b, w, $t::validate(b).err());
            refusal(ctx, n, b, w, $t::try_from(b).err());
            refusal(ctx, n, b, w, $t::try_from(b.to_vec()).err());
            if let Ok(s) = std::str::from_utf8(b) {
                refusal(ctx, n, b, w, $t::try_from(s).err());
                refusal(ctx, n, b, w, $t::try_from(s.to_string()).err());
            }
        };
    }
    go!(Atom, false, atom_c);
    go!(AtomExt, false, ext_c);
    go!(Tag, false, tag_c);
    go!(Text, false, text_c);
    go!(Quoted, true, text_c);
    go!(Literal, true, lit_c);
    let w = cause(b, false, list_c);
    refusal(ctx, "ListCharString", b, w, ListCharString::validate(b).err());
    let w = cause(b, true, lit_c);
    macro_rules! strings {
        ($($t:ident),*) => { $(
            refusal(ctx, stringify!($t), b, w, $t::try_from(b).err());
            refusal(ctx, stringify!($t), b, w, $t::try_from(b.to_vec()).err());
            if let Ok(s) = std::str::from_utf8(b) {
                refusal(ctx, stringify!($t), b, w, $t::try_from(s).err());
                refusal(ctx, stringify!($t), b, w, $t::try_from(s.to_string()).err());
            }
        )* };
    }
    strings!(IString, AString, NString, Mailbox);
    if let Ok(s) = std::str::from_utf8(b) {
        refusal(ctx, "ListCharString", b, cause(b, false, list_c), ListCharString::try_from(s).err());
        refusal(ctx, "ListMailbox", b, w, ListMailbox::try_from(s).err());
        refusal(ctx, "ListMailbox", b, w, ListMailbox::try_from(s.to_string()).err());
        if !s.starts_with('\\') {
            refusal(ctx, "Flag", b, cause(b, false, atom_c), Flag::try_from(s).err());
        }
        refusal(ctx, "Capability", b, cause(b, false, atom_c), Capability::try_from(s).err());
        refusal(ctx, "AuthMechanism", b, cause(b, false, atom_c), AuthMechanism::try_from(s).err());
        refusal(ctx, "Resource", b, cause(b, false, atom_c), Resource::try_from(s).err());
    }
    for e in [MailboxOther::try_from(b).err(), MailboxOther::try_from(b.to_vec()).err()] {
        match e {
            Some(MailboxOtherError::Reserved) => {
                ctx.check(m_inbox(b), "MailboxOther calls a free name reserved", b, String::new);
                ctx.c("reserved");
            }
            Some(MailboxOtherError::Literal(e)) => refusal(ctx, "MailboxOther", b, w, Some(e)),
            None => {
                ctx.check(!m_inbox(b), "MailboxOther takes the reserved name", b, String::new);
                refusal(ctx, "MailboxOther", b, w, None);
            }
        }
    }
}

/// Which of two arguments is at fault; `which` is what the error says.
fn at_fault(ctx: &mut Ctx, what: &str, first: &[u8], second: &[u8], bad: (Option<Cause>, Option<Cause>), got: Result<(), (bool, Option<ValidationError>)>) {
    let key = [what.as_bytes(), first, b"\0\0", second].concat();
    ctx.eval(&key);
    ctx.c(what);
    match got {
        Ok(()) => {
            ctx.check(bad == (None, None), &format!("{what}: accepted"), &key, String::new);
        }
        Err((is_first, e)) => {
            let c = if is_first { bad.0 } else { bad.1 };
            if !is_first && bad.0.is_some() {
                ctx.fail(format!("{what}: blames the second argument although the first is illegal"), format!("first {}, second {}", show(first), show(second)), &key);
            }
            let Some(c) = c else {
                ctx.fail(format!("{what}: blames the wrong argument"), format!("first {}, second {}: blames the {}", show(first), show(second), if is_first { "first" } else { "second" }), &key);
                return;
            };
            if let Some(e) = e {
                ctx.check(names(&e, c), &format!("{what}: the refusal names something else"), &key, || format!("{e}, want {c:?}"));
            }
        }
    }
}

fn arguments(ctx: &mut Ctx, x: &[u8], y: &[u8]) {
    let (cx, cy) = (cause(x, true, lit_c), cause(y, true, lit_c));
    let r = CommandBody::login(x, y).map(|_| ()).map_err(|e| {
        let t = e.to_string();
        match e {
            LoginError::Username(e) => (true, Some(e), t.contains("username")),
            LoginError::Password(e) => (false, Some(e), t.contains("password")),
        }
    });
    if let Err((_, _, said)) = &r {
        ctx.check(*said, "LOGIN: the message names the other argument", x, String::new);
    }
    at_fault(ctx, "LOGIN", x, y, (cx, cy), r.map_err(|(a, b, _)| (a, b)));
    let r = CommandBody::rename(x, y).map(|_| ()).map_err(|e| {
        let t = e.to_string();
        match e {
            RenameError::From(e) => (true, Some(e), t.contains("from")),
            RenameError::To(e) => (false, Some(e), t.contains("to")),
        }
    });
    if let Err((_, _, said)) = &r {
        ctx.check(*said, "RENAME: the message names the other argument", x, String::new);
    }
    at_fault(ctx, "RENAME", x, y, (cx, cy), r.map_err(|(a, b, _)| (a, b)));
    if let Ok(p) = std::str::from_utf8(y) {
        let f = |e: ListError<ValidationError, ValidationError>| match e {
            ListError::Reference(e) => (true, Some(e)),
            ListError::Mailbox(e) => (false, Some(e)),
        };
        at_fault(ctx, "LIST", x, y, (cx, cy), CommandBody::list(x, p).map(|_| ()).map_err(f));
        at_fault(ctx, "LSUB", x, y, (cx, cy), CommandBody::lsub(x, p).map(|_| ()).map_err(f));
    }
    let r = CommandBody::append(x, Vec::new(), None, y).map(|_| ()).map_err(|e| match e {
        AppendError::Mailbox(e) => (true, Some(e)),
        AppendError::Data(e) => (false, Some(e)),
    });
    at_fault(ctx, "APPEND", x, y, (cx, cy), r);
    // A sequence as text: not worth predicting here, only whether it is legal by itself.
    if let Ok(s) = std::str::from_utf8(x) {
        let ok = SequenceSet::try_from(s).is_ok();
        let bad = if ok { None } else { Some(Cause::Empty) };
        let f = |e: CopyError<ValidationError, ValidationError>| match e {
            CopyError::Sequence(_) => (true, None),
            CopyError::Mailbox(e) => (false, Some(e)),
        };
        at_fault(ctx, "COPY", x, y, (bad, cy), CommandBody::copy(s, y, false).map(|_| ()).map_err(f));
    }
    if let Ok(t) = std::str::from_utf8(x) {
        match CommandContinuationRequest::basic(None, t) {
            Ok(_) => {}
            Err(ContinueError::Text(e)) => refusal(ctx, "continuation", x, cause(x, false, text_c), Some(e)),
            Err(ContinueError::Ambiguity) => {
                ctx.check(m_text(x), "continuation: an illegal text is called ambiguous", x, String::new);
                ctx.c("ambiguous");
            }
        }
    }
}

fn lists(ctx: &mut Ctx, n: usize) {
    let v = vec![1u8; n];
    for (min, e) in [(1, Vec1::<u8>::validate(&v).err()), (2, Vec2::<u8>::validate(&v).err()), (1, Vec1::<u8>::try_from(v.clone()).err()), (2, Vec2::<u8>::try_from(v.clone()).err())] {
        ctx.check(e.is_some() == (n < min), "list length", &[n as u8], || format!("{e:?}"));
        if let Some(e) = e {
            ctx.check(e.to_string().contains(&min.to_string()), "list: the refusal names another minimum", &[n as u8], || e.to_string());
            ctx.c("too-few");
        }
    }
    for (seq, items) in [(0u32, n), (1, n)] {
        let items: Vec<MessageDataItem> = vec![MessageDataItem::Rfc822Size(1); items];
        let empty = items.is_empty();
        match Data::fetch(seq, items) {
            Ok(_) => {
                ctx.check(seq > 0 && !empty, "FETCH accepted", &[seq as u8], String::new);
            }
            Err(FetchError::SeqOrUid(_)) => {
                ctx.check(seq == 0, "FETCH blames the number", &[seq as u8], String::new);
            }
            Err(FetchError::InvalidItems(_)) => {
                ctx.check(empty, "FETCH blames the items", &[seq as u8], String::new);
            }
        };
    }
}

fn times(ctx: &mut Ctx, y: i32, nanos: u32, off: i32) {
    let Some(d) = chrono::NaiveDate::from_ymd_opt(y, 7, 9) else { return };
    let key = format!("{y} {nanos} {off}");
    ctx.eval(key.as_bytes());
    let w = !(0..=9999).contains(&y);
    match NaiveDate::try_from(d) {
        Ok(_) => {
            ctx.check(!w, "date accepted", key.as_bytes(), String::new);
        }
        Err(NaiveDateError::YearOutOfRange { got }) => {
            ctx.check(w && got == y, "date: the refusal names another year", key.as_bytes(), || format!("{got}"));
            ctx.c("year");
        }
    }
    let Some(t) = d.and_hms_nano_opt(12, 0, 0, nanos) else { return };
    let Some(z) = FixedOffset::east_opt(off) else { return };
    let Some(t) = z.from_local_datetime(&t).single() else { return };
    debug_assert_eq!(t.year(), y);
    match DateTime::try_from(t) {
        Ok(_) => {
            ctx.check(!w && nanos == 0 && off % 60 == 0, "date-time accepted", key.as_bytes(), String::new);
        }
        Err(DateTimeError::YearOutOfRange { got }) => {
            ctx.check(w && got == y, "date-time: the refusal names another year", key.as_bytes(), || format!("{got}"));
            ctx.c("year");
        }
        Err(DateTimeError::UnalignedNanoSeconds { got }) => {
            ctx.check(nanos != 0 && got == nanos, "date-time: the refusal names other nanoseconds", key.as_bytes(), || format!("{got}"));
            ctx.c("nanoseconds");
        }
        Err(DateTimeError::UnalignedOffset { got }) => {
            ctx.check(off % 60 != 0 && got % 60 == off % 60, "date-time: the refusal names another offset", key.as_bytes(), || format!("{got}"));
            ctx.c("offset");
        }
    }
}

fn c30_fixed(ctx: &mut Ctx) {
    refusals(ctx, b"");
    for a in 0..=255u8 {
        refusals(ctx, &[a]);
        for at in [0usize, 1, 2, 7, 30, 300] {
            let mut s = vec![b'a'; at + 5];
            s[at] = a;
            refusals(ctx, &s);
            // Two offenders: the first counts.
            s[at + 3] = if a == 0 { b' ' } else { 0 };
            refusals(ctx, &s);
            s[at + 4] = 0xff;
            refusals(ctx, &s);
        }
        arguments(ctx, &[a], b"ok");
        arguments(ctx, b"ok", &[a]);
        arguments(ctx, &[a, 0], &[b'x', 0]);
    }
    for c in (0..=0x10ffffu32).filter_map(char::from_u32) {
        let ok = c.is_ascii() && text_c(c as u8);
        ctx.check(QuotedChar::validate(c).is_err() != ok, "QuotedChar", c.to_string().as_bytes(), String::new);
        ctx.tick();
    }
    for n in 0..6 {
        lists(ctx, n);
    }
    for y in [-9999, -1, 0, 1, 1999, 9999, 10000, 10001, 200000] {
        for nanos in [0, 1, 500_000_000, 999_999_999] {
            for off in [0, 1, 59, 60, 61, -1, -59, -60, -61, 3600, 86399, -86399, 86340] {
                times(ctx, y, nanos, off);
            }
        }
    }
    ctx.c("enumerated");
}

fn c30(ctx: &mut Ctx, seed: u64) {
    let mut r = Rng::new(seed);
    match r.below(5) {
        0 => {
            let (x, y) = (content(&mut r), content(&mut r));
            ctx.current = [&x[..], b"\0", &y].concat();
            arguments(ctx, &x, &y);
            let s = format!("{}", r.range(0, 5));
            arguments(ctx, s.as_bytes(), &y);
        }
        1 => {
            let y = match r.below(3) {
                0 => r.range(0, 9999) as i32,
                1 => -(r.range(0, 200_000) as i32),
                _ => r.range(9990, 200_000) as i32,
            };
            let nanos = if r.bool() { 0 } else { r.range(0, 999_999_999) as u32 };
            let off = r.range(0, 2 * 86399) as i32 - 86399;
            let off = if r.bool() { off / 60 * 60 } else { off };
            times(ctx, y, nanos, off);
        }
        _ => {
            let mut x = content(&mut r);
            if r.chance(1, 2) && !x.is_empty() {
                // A legal content with a few strange bytes.
                for b in x.iter_mut() {
                    *b = *r.pick(b"abcXYZ09._-");
                }
                for _ in 0..r.range(0, 3) {
                    let at = r.below(x.len());
                    x[at] = r.next() as u8;
                }
            }
            ctx.current = x.clone();
            refusals(ctx, &x);
        }
    }
}
