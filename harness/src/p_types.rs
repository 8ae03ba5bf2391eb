//! C14 (validated types), C16 (string conversions), C24 (name registries), C25 (dates).
use std::borrow::Cow;

#[allow(unused_imports)]
use chrono::{Datelike, FixedOffset, TimeZone, Timelike};
use imap_types::{
    auth::AuthMechanism,
    command::{Command, CommandBody},
    core::*,
    datetime::{DateTime, NaiveDate},
    extensions::{
        compress::CompressionAlgorithm,
        enable::CapabilityEnable,
        quota::Resource,
        sort::SortAlgorithm,
        thread::ThreadingAlgorithm,
    },
    flag::*,
    mailbox::{ListCharString, ListMailbox, Mailbox, MailboxOther},
    response::{Capability, Code, Data, Response, Status},
    search::SearchKey,
    utils::{escape_quoted, unescape_quoted},
};

use crate::{
    Prop,
    cogen::{EXT, MONTHS, days_in_month},
    ctx::Ctx,
    msg::{Dec, Kind, Msg, decode},
    rng::Rng,
};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C14", fixed: Some(c14_fixed), case: c14, quick: 500_000, thorough: 6_000_000 },
        Prop { id: "C16", fixed: Some(c16_fixed), case: c16, quick: 500_000, thorough: 6_000_000 },
        Prop { id: "C24", fixed: Some(c24_fixed), case: c24, quick: 600_000, thorough: 8_000_000 },
        Prop { id: "C25", fixed: Some(c25_fixed), case: c25, quick: 600_000, thorough: 8_000_000 },
    ]
}

// ----- reference character classes, written from RFC 3501 section 9 -----

fn ctl(b: u8) -> bool {
    b < 0x20 || b == 0x7f
}
fn atom_char(b: u8) -> bool {
    b < 0x80 && !ctl(b) && !b"(){ %*\"\\]".contains(&b)
}
fn astring_char(b: u8) -> bool {
    atom_char(b) || b == b']'
}
fn text_char(b: u8) -> bool {
    b > 0 && b < 0x80 && b != b'\r' && b != b'\n'
}
pub fn m_atom(b: &[u8]) -> bool {
    !b.is_empty() && b.iter().all(|b| atom_char(*b))
}
pub fn m_atom_ext(b: &[u8]) -> bool {
    !b.is_empty() && b.iter().all(|b| astring_char(*b))
}
pub fn m_tag(b: &[u8]) -> bool {
    m_atom_ext(b) && !b.contains(&b'+')
}
pub fn m_text(b: &[u8]) -> bool {
    !b.is_empty() && b.iter().all(|b| text_char(*b))
}
pub fn m_quoted(b: &[u8]) -> bool {
    b.iter().all(|b| text_char(*b))
}
pub fn m_literal(b: &[u8]) -> bool {
    b.iter().all(|b| *b != 0)
}
pub fn m_list(b: &[u8]) -> bool {
    !b.is_empty() && b.iter().all(|b| astring_char(*b) || *b == b'%' || *b == b'*')
}
pub fn m_inbox(b: &[u8]) -> bool {
    b.len() == 5 && b.iter().zip(b"INBOX").all(|(a, b)| a == b || *a == b + 32)
}
fn m_mailbox_other(b: &[u8]) -> bool {
    m_literal(b) && !m_inbox(b)
}
fn m_charset(b: &[u8]) -> bool {
    m_quoted(b)
}

#[cfg(feature = "serde")]
fn de<T: serde::de::DeserializeOwned>(v: serde_json::Value) -> Option<T> {
    // Through text, as a real document would come.
    serde_json::from_str(&v.to_string()).ok()
}

/// The verdicts of all ways in: (path, content if accepted).
type Verdicts = Vec<(&'static str, Option<Vec<u8>>)>;

macro_rules! strings {
    ($name:ident, $t:ident, $b:expr, $valid:expr) => {{
        let b: &[u8] = $b;
        let mut v: Verdicts = Vec::new();
        let c = |x: &$t| -> Vec<u8> {
            let s: &str = x.as_ref();
            s.as_bytes().to_vec()
        };
        v.push(("validate", $t::validate(b).ok().map(|_| b.to_vec())));
        v.push(("&[u8]", $t::try_from(b).ok().map(|x| c(&x))));
        v.push(("Vec<u8>", $t::try_from(b.to_vec()).ok().map(|x| c(&x))));
        if let Ok(s) = std::str::from_utf8(b) {
            v.push(("validate str", $t::validate(s).ok().map(|_| b.to_vec())));
            v.push(("&str", $t::try_from(s).ok().map(|x| c(&x))));
            v.push(("String", $t::try_from(s.to_string()).ok().map(|x| c(&x))));
            v.push(("inner", $t::try_from(s).ok().map(|x| x.inner().as_bytes().to_vec())));
            #[cfg(feature = "serde")]
            v.push(("serde", de::<$t>(serde_json::json!(s)).map(|x| c(&x))));
            if $valid {
                v.push(("unvalidated", Some(c(&$t::unvalidated(s)))));
            }
        }
        v
    }};
}

fn judge(ctx: &mut Ctx, what: &str, b: &[u8], valid: bool, v: Verdicts) {
    for (path, got) in v {
        ctx.tick();
        let ok = match &got {
            Some(c) => valid && c == b,
            None => !valid,
        };
        ctx.check(ok, &format!("{what} via {path}"), b, || {
            format!("valid by the grammar: {valid}, accepted: {}, content kept: {}", got.is_some(), got.as_deref() == Some(b))
        });
    }
}

fn all_types(ctx: &mut Ctx, b: &[u8]) {
    ctx.current = b.to_vec();
    ctx.eval(b);
    // A counter per class keeps the evidence honest about both verdicts being seen.
    for (n, ok) in [("atom", m_atom(b)), ("tag", m_tag(b)), ("text", m_text(b)), ("literal", m_literal(b)), ("list", m_list(b))] {
        ctx.c(match (n, ok) {
            ("atom", true) => "atom-valid",
            ("atom", false) => "atom-invalid",
            ("tag", true) => "tag-valid",
            ("tag", false) => "tag-invalid",
            ("text", true) => "text-valid",
            ("text", false) => "text-invalid",
            ("literal", true) => "literal-valid",
            ("literal", false) => "literal-invalid",
            (_, true) => "list-valid",
            (_, false) => "list-invalid",
        });
    }
    let mut v = strings!(atom, Atom, b, m_atom(b));
    if let Ok(s) = std::str::from_utf8(b) {
        let c = |x: Atom| x.into_inner().as_bytes().to_vec();
        v.push(("Cow borrowed", Atom::try_from(Cow::Borrowed(s)).ok().map(c)));
        v.push(("Cow owned", Atom::try_from(Cow::<str>::Owned(s.to_string())).ok().map(c)));
        v.push(("Display", Atom::try_from(s).ok().map(|a| a.to_string().into_bytes())));
    }
    judge(ctx, "Atom", b, m_atom(b), v);
    let mut v = strings!(atom_ext, AtomExt, b, m_atom_ext(b));
    v.push(("into_inner", AtomExt::try_from(b).ok().map(|x| x.into_inner().as_bytes().to_vec())));
    judge(ctx, "AtomExt", b, m_atom_ext(b), v);
    if m_atom(b) {
        let x = AtomExt::from(Atom::try_from(b).unwrap());
        ctx.check(x.as_ref().as_bytes() == b, "AtomExt from Atom", b, || format!("{x:?}"));
    }
    judge(ctx, "Tag", b, m_tag(b), strings!(tag, Tag, b, m_tag(b)));
    let mut v = strings!(text, Text, b, m_text(b));
    v.push(("Display", Text::try_from(b).ok().map(|x| x.to_string().into_bytes())));
    v.push(("into_inner", Text::try_from(b).ok().map(|x| x.into_inner().as_bytes().to_vec())));
    judge(ctx, "Text", b, m_text(b), v);
    let mut v = strings!(quoted, Quoted, b, m_quoted(b));
    v.push(("into_inner", Quoted::try_from(b).ok().map(|x| x.into_inner().as_bytes().to_vec())));
    judge(ctx, "Quoted", b, m_quoted(b), v);

    // Literal
    let c = |x: Literal| {
        assert_eq!(x.data(), x.as_ref() as &[u8]);
        x.into_inner().to_vec()
    };
    let mut v: Verdicts = vec![
        ("validate", Literal::validate(b).ok().map(|_| b.to_vec())),
        ("&[u8]", Literal::try_from(b).ok().map(c)),
        ("Vec<u8>", Literal::try_from(b.to_vec()).ok().map(c)),
    ];
    if let Ok(s) = std::str::from_utf8(b) {
        v.push(("&str", Literal::try_from(s).ok().map(c)));
        v.push(("String", Literal::try_from(s.to_string()).ok().map(c)));
    }
    #[cfg(feature = "serde")]
    if b.len() <= 3000 {
        for m in ["Sync", "NonSync"] {
            let l = de::<Literal>(serde_json::json!({"data": b, "mode": m}));
            if let Some(l) = &l {
                ctx.check(format!("{:?}", l.mode()) == m, "Literal mode via serde", b, || format!("{l:?}"));
            }
            v.push(("serde", l.map(c)));
        }
    }
    if m_literal(b) {
        v.push(("unvalidated", Some(c(Literal::unvalidated(b)))));
        v.push(("unvalidated_non_sync", Some(c(Literal::unvalidated_non_sync(b)))));
    }
    judge(ctx, "Literal", b, m_literal(b), v);

    // Charset
    let c = |x: Charset| x.as_ref().as_bytes().to_vec();
    let mut v: Verdicts =
        vec![("&[u8]", Charset::try_from(b).ok().map(c)), ("Vec<u8>", Charset::try_from(b.to_vec()).ok().map(c))];
    if let Ok(s) = std::str::from_utf8(b) {
        v.push(("&str", Charset::try_from(s).ok().map(c)));
        v.push(("String", Charset::try_from(s.to_string()).ok().map(c)));
        #[cfg(feature = "serde")]
        {
            v.push(("serde quoted", de::<Charset>(serde_json::json!({"type": "Quoted", "content": s})).map(c)));
            let a = de::<Charset>(serde_json::json!({"type": "Atom", "content": s})).map(c);
            judge(ctx, "Charset atom", b, m_atom(b), vec![("serde", a)]);
        }
    }
    judge(ctx, "Charset", b, m_charset(b), v);

    // List mailbox token
    let mut v: Verdicts = vec![("validate", ListCharString::validate(b).ok().map(|_| b.to_vec()))];
    if let Ok(s) = std::str::from_utf8(b) {
        let c = |x: ListCharString| x.as_ref().to_vec();
        v.push(("&str", ListCharString::try_from(s).ok().map(c)));
        v.push(("String", ListCharString::try_from(s.to_string()).ok().map(c)));
        #[cfg(feature = "serde")]
        v.push(("serde", de::<ListCharString>(serde_json::json!(s)).map(c)));
        if m_list(b) {
            v.push(("unvalidated", Some(c(ListCharString::unvalidated(s)))));
        }
    }
    judge(ctx, "ListCharString", b, m_list(b), v);

    // Other mailbox
    let c = |x: MailboxOther| {
        assert_eq!(x.inner().as_ref(), x.as_ref() as &[u8]);
        x.as_ref().to_vec()
    };
    let mut v: Verdicts = vec![
        ("&[u8]", MailboxOther::try_from(b).ok().map(c)),
        ("Vec<u8>", MailboxOther::try_from(b.to_vec()).ok().map(c)),
        ("AString", AString::try_from(b).ok().and_then(|a| MailboxOther::try_from(a).ok()).map(c)),
        ("AString literal", Literal::try_from(b).ok().and_then(|l| MailboxOther::try_from(AString::from(l)).ok()).map(c)),
    ];
    if let Ok(s) = std::str::from_utf8(b) {
        v.push(("&str", MailboxOther::try_from(s).ok().map(c)));
        v.push(("String", MailboxOther::try_from(s.to_string()).ok().map(c)));
    }
    judge(ctx, "MailboxOther", b, m_mailbox_other(b), v);
    if m_literal(b) {
        judge(ctx, "MailboxOther", b, !m_inbox(b), vec![("validate", MailboxOther::validate(b).ok().map(|_| b.to_vec()))]);
    }
    if m_quoted(b) {
        let q = AString::from(Quoted::try_from(b).unwrap());
        judge(ctx, "MailboxOther", b, !m_inbox(b), vec![("AString quoted", MailboxOther::try_from(q).ok().map(c))]);
    }
    #[cfg(feature = "serde")]
    if b.len() <= 3000 {
        let mut v: Verdicts = vec![(
            "serde literal",
            de::<MailboxOther>(serde_json::json!({"type": "String", "content": {"type": "Literal", "content": {"data": b, "mode": "Sync"}}})).map(c),
        )];
        judge(ctx, "MailboxOther", b, m_mailbox_other(b), std::mem::take(&mut v));
        if let Ok(s) = std::str::from_utf8(b) {
            let q = de::<MailboxOther>(serde_json::json!({"type": "String", "content": {"type": "Quoted", "content": s}})).map(c);
            judge(ctx, "MailboxOther", b, m_quoted(b) && !m_inbox(b), vec![("serde quoted", q)]);
            let a = de::<MailboxOther>(serde_json::json!({"type": "Atom", "content": s})).map(c);
            judge(ctx, "MailboxOther", b, m_atom_ext(b) && !m_inbox(b), vec![("serde atom", a)]);
        }
    }
}

/// The constructors that do not validate: they keep the content, and in debug builds they panic exactly on illegal content.
fn unvalidated(ctx: &mut Ctx, b: &[u8]) {
    ctx.current = b.to_vec();
    ctx.tick();
    ctx.c("unvalidated");
    let mut go = |what: &str, legal: bool, f: &dyn Fn() -> Vec<u8>| {
        if !legal && !cfg!(debug_assertions) {
            return;
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok();
        let want = legal.then(|| b.to_vec());
        ctx.check(r == want, &format!("{what}::unvalidated"), b, || format!("legal: {legal}, got {r:?}"));
    };
    go("Literal", m_literal(b), &|| Literal::unvalidated(b).data().to_vec());
    go("Literal", m_literal(b), &|| Literal::unvalidated_non_sync(b.to_vec()).data().to_vec());
    if m_literal(b) {
        let s = || AString::from(Literal::try_from(b).unwrap());
        go("MailboxOther", m_mailbox_other(b), &|| MailboxOther::unvalidated(s()).inner().as_ref().to_vec());
    }
    let Ok(s) = std::str::from_utf8(b) else { return };
    go("Atom", m_atom(b), &|| Atom::unvalidated(s).inner().as_bytes().to_vec());
    go("AtomExt", m_atom_ext(b), &|| AtomExt::unvalidated(s).inner().as_bytes().to_vec());
    go("Tag", m_tag(b), &|| Tag::unvalidated(s).inner().as_bytes().to_vec());
    go("Text", m_text(b), &|| Text::unvalidated(s).inner().as_bytes().to_vec());
    go("Quoted", m_quoted(b), &|| Quoted::unvalidated(s).inner().as_bytes().to_vec());
    go("ListCharString", m_list(b), &|| ListCharString::unvalidated(s).as_ref().to_vec());
}

fn vectors(ctx: &mut Ctx, n: usize) {
    let src: Vec<u32> = (0..n as u32).map(|x| x * 7 + 1).collect();
    let key = format!("vector of {n}");
    ctx.eval(key.as_bytes());
    let k = key.as_bytes();
    let keep = |v: Option<Vec<u32>>, min: usize| if n >= min { v.as_deref() == Some(&src[..]) } else { v.is_none() };
    ctx.check(keep(Vec1::try_from(src.clone()).ok().map(|v| v.into_inner()), 1), "Vec1 from Vec", k, String::new);
    ctx.check(keep(Vec2::try_from(src.clone()).ok().map(|v| v.into_inner()), 2), "Vec2 from Vec", k, String::new);
    ctx.check(keep(VecN::<u32, 5>::try_from(src.clone()).ok().map(|v| v.into_inner()), 5), "VecN from Vec", k, String::new);
    ctx.check(keep(Vec1::try_from(src.clone()).ok().map(|v| v.as_ref().to_vec()), 1), "Vec1 as_ref", k, String::new);
    ctx.check(keep(Vec1::try_from(src.clone()).ok().map(|v| v.into_iter().collect()), 1), "Vec1 into_iter", k, String::new);
    ctx.check(Vec1::<u32>::validate(&src).is_ok() == (n >= 1), "Vec1 validate", k, String::new);
    ctx.check(Vec2::<u32>::validate(&src).is_ok() == (n >= 2), "Vec2 validate", k, String::new);
    #[cfg(feature = "serde")]
    {
        ctx.check(keep(de::<Vec1<u32>>(serde_json::json!(src)).map(|v| v.into_inner()), 1), "Vec1 serde", k, String::new);
        ctx.check(keep(de::<Vec2<u32>>(serde_json::json!(src)).map(|v| v.into_inner()), 2), "Vec2 serde", k, String::new);
    }
    ctx.cn("vectors", 1);
}

fn c14_fixed(ctx: &mut Ctx) {
    all_types(ctx, b"");
    for a in 0..=255u8 {
        all_types(ctx, &[a]);
        for b in 0..=255u8 {
            all_types(ctx, &[a, b]);
        }
        // Every byte at the start, in the middle and at the end of longer content.
        for n in [3usize, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4096] {
            for at in [0, n / 2, n - 1] {
                let mut v = vec![b'a'; n];
                v[at] = a;
                all_types(ctx, &v);
            }
        }
    }
    for n in [8_191usize, 16_384, 65_535, 65_536, 65_537, 100_000, 1 << 20] {
        for a in [b'a', b' ', b'"', b'\r', b'\n', 0, 0x7f, 0x80, b'+', b'*', b']', b'(', b'{'] {
            let mut v = vec![b'a'; n];
            v[n - 1] = a;
            all_types(ctx, &v);
        }
    }
    ctx.c("exhaustive-up-to-two-bytes");
    // Documented: the unvalidated constructors panic on wrong input in debug builds.
    for a in 0..=255u8 {
        for at in [0usize, 3, 6] {
            let mut v = b"abcdefg".to_vec();
            v[at] = a;
            unvalidated(ctx, &v);
        }
        unvalidated(ctx, &[a]);
    }
    for c in ["", "inbox", "INBOX", "é", "a\u{80}", "\u{10ffff}x"] {
        unvalidated(ctx, c.as_bytes());
    }
    for n in 0..40 {
        vectors(ctx, n);
    }
    for n in [100, 255, 256, 1000, 10_000] {
        vectors(ctx, n);
    }
    ctx.check(Vec1::from(7u32).into_inner() == vec![7], "Vec1 from one", b"", String::new);
    ctx.check(Vec1::<u32>::from([7u32]).into_inner() == vec![7], "Vec1 from array", b"", String::new);
    ctx.check(Vec2::from((7u32, 8)).into_inner() == vec![7, 8], "Vec2 from pair", b"", String::new);
    ctx.check(Vec2::<u32>::from([7u32, 8]).into_inner() == vec![7, 8], "Vec2 from array", b"", String::new);
    for c in 0..=char::MAX as u32 {
        let Some(c) = char::from_u32(c) else { continue };
        ctx.tick();
        let want = (c as u32) < 0x80 && text_char(c as u8);
        let mut buf = [0u8; 4];
        let k = c.encode_utf8(&mut buf).as_bytes().to_vec();
        ctx.check(QuotedChar::validate(c).is_ok() == want, "QuotedChar validate", &k, || format!("{c:?}"));
        let g = QuotedChar::try_from(c);
        ctx.check(g.as_ref().ok().map(|q| q.inner()) == want.then_some(c), "QuotedChar from char", &k, || format!("{c:?}: {g:?}"));
        #[cfg(feature = "serde")]
        if (c as u32) < 0x3000 || c as u32 % 97 == 0 {
            let g = de::<QuotedChar>(serde_json::json!(c));
            ctx.check(g.map(|q| q.inner()) == want.then_some(c), "QuotedChar serde", &k, || format!("{c:?}: {g:?}"));
        }
        if want {
            ctx.check(QuotedChar::unvalidated(c).inner() == c, "QuotedChar unvalidated", &k, String::new);
        }
    }
    ctx.c("exhaustive-chars");
}

/// Strings around the borders of the character classes.
pub fn content(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(12) {
        0 => 0,
        1..=6 => r.range(1, 6),
        7..=9 => r.range(1, 40),
        10 => r.range(30, 400),
        _ if r.chance(1, 60) => r.range(6000, 80_000),
        _ => r.range(1, 6000),
    };
    let base = r.below(6);
    let mut v: Vec<u8> = (0..n)
        .map(|_| match base {
            0 => *r.pick(b"abcXYZ019"),
            1 => r.range(0x21, 0x7e) as u8,
            2 => r.range(0x20, 0x7e) as u8,
            3 => r.range(1, 0x7f) as u8,
            4 => r.range(1, 255) as u8,
            _ => *r.pick(b"aB1]+-.%*\"\\ "),
        })
        .collect();
    if n > 0 && r.chance(1, 2) {
        let at = match r.below(4) {
            0 => 0,
            1 => n - 1,
            _ => r.below(n),
        };
        v[at] = match r.below(4) {
            0 => r.below(256) as u8,
            _ => *r.pick(b"\0\r\n\t\x0b\x0c\x7f\x80\xff \"\\(){}%*][+&~/'\x1f\x01\xc3"),
        };
    }
    if r.chance(1, 12) {
        v = "inbox".bytes().map(|b| if r.bool() { b.to_ascii_uppercase() } else { b }).collect();
        match r.below(4) {
            0 => {
                let at = r.below(v.len() + 1);
                v.insert(at, *r.pick(b"x \0\r\"/"));
            }
            1 => {
                v.remove(r.below(v.len()));
            }
            _ => {}
        }
    }
    if r.chance(1, 12) {
        // Valid UTF-8 beyond ASCII.
        let s: String = (0..r.range(1, 8)).map(|_| *r.pick(&['ä', 'ı', 'K', 'ſ', '日', 'a', '😀', '\u{80}', '\u{a0}', 'İ'])).collect();
        v = s.into_bytes();
    }
    v
}

fn c14(ctx: &mut Ctx, seed: u64) {
    let mut r = Rng::new(seed);
    let v = content(&mut r);
    all_types(ctx, &v);
    if r.chance(1, 50) {
        unvalidated(ctx, &v);
    }
    if r.chance(1, 200) {
        let n = r.below(3000);
        vectors(ctx, n);
    }
}

// ----- C16 -----

#[derive(Debug, PartialEq, Clone, Copy)]
enum Form {
    Atom,
    Token,
    Quoted,
    Literal,
    Refused,
}

fn istring_form(b: &[u8]) -> Form {
    if m_quoted(b) {
        Form::Quoted
    } else if m_literal(b) {
        Form::Literal
    } else {
        Form::Refused
    }
}
fn astring_form(b: &[u8]) -> Form {
    if m_atom_ext(b) { Form::Atom } else { istring_form(b) }
}
fn of_istring(i: &IString) -> (Form, Vec<u8>) {
    match i {
        IString::Quoted(q) => (Form::Quoted, q.inner().as_bytes().to_vec()),
        IString::Literal(l) => {
            assert_eq!(l.mode(), LiteralMode::Sync, "a literal chosen by a conversion is synchronising");
            (Form::Literal, l.data().to_vec())
        }
        #[allow(unreachable_patterns)]
        _ => (Form::Refused, vec![]),
    }
}
fn of_astring(a: &AString) -> (Form, Vec<u8>) {
    match a {
        AString::Atom(a) => (Form::Atom, a.inner().as_bytes().to_vec()),
        AString::String(i) => of_istring(i),
    }
}

fn expect(ctx: &mut Ctx, what: &str, b: &[u8], want: Form, got: Option<(Form, Vec<u8>)>) {
    ctx.tick();
    let ok = match &got {
        Some((f, c)) => *f == want && c == b,
        None => want == Form::Refused,
    };
    ctx.check(ok, what, b, || format!("want {want:?}, got {got:?}"));
}

macro_rules! four {
    ($b:expr, $t:ident, $f:expr) => {{
        let b: &[u8] = $b;
        let mut v = vec![
            ("&[u8]", $t::try_from(b).ok().map(|x| ($f)(&x))),
            ("Vec<u8>", $t::try_from(b.to_vec()).ok().map(|x| ($f)(&x))),
        ];
        if let Ok(s) = std::str::from_utf8(b) {
            v.push(("&str", $t::try_from(s).ok().map(|x| ($f)(&x))));
            v.push(("String", $t::try_from(s.to_string()).ok().map(|x| ($f)(&x))));
        }
        v
    }};
}

fn c16_content(ctx: &mut Ctx, b: &[u8], r: &mut Rng) {
    ctx.current = b.to_vec();
    ctx.eval(b);
    let inbox = m_inbox(b);
    let form = astring_form(b);
    ctx.c(match form {
        Form::Atom | Form::Token => "as-atom",
        Form::Quoted => "as-quoted",
        Form::Literal => "as-literal",
        Form::Refused => "refused",
    });
    for (p, g) in four!(b, AString, of_astring) {
        expect(ctx, &format!("AString via {p}"), b, form, g);
    }
    for (p, g) in four!(b, IString, of_istring) {
        expect(ctx, &format!("IString via {p}"), b, istring_form(b), g);
    }
    for (p, g) in four!(b, NString, |n: &NString| n.0.as_ref().map(of_istring).unwrap_or((Form::Refused, vec![]))) {
        expect(ctx, &format!("NString via {p}"), b, istring_form(b), g);
    }
    let cf = if m_atom(b) {
        Form::Atom
    } else if m_quoted(b) {
        Form::Quoted
    } else {
        Form::Refused
    };
    let of_charset = |c: &Charset| match c {
        Charset::Atom(a) => (Form::Atom, a.inner().as_bytes().to_vec()),
        Charset::Quoted(a) => (Form::Quoted, a.inner().as_bytes().to_vec()),
    };
    for (p, g) in four!(b, Charset, of_charset) {
        expect(ctx, &format!("Charset via {p}"), b, cf, g);
    }
    // Mailbox
    let of_mailbox = |m: &Mailbox| match m {
        Mailbox::Inbox => (Form::Token, vec![]),
        Mailbox::Other(o) => of_astring(o.inner()),
    };
    for (p, g) in four!(b, Mailbox, of_mailbox) {
        if inbox {
            ctx.c("inbox");
            ctx.check(g == Some((Form::Token, vec![])), &format!("Mailbox via {p}"), b, || format!("INBOX became {g:?}"));
        } else {
            expect(ctx, &format!("Mailbox via {p}"), b, form, g);
        }
    }
    for (p, g) in four!(b, MailboxOther, |m: &MailboxOther| of_astring(m.inner())) {
        expect(ctx, &format!("MailboxOther via {p}"), b, if inbox { Form::Refused } else { form }, g);
    }
    // List mailbox
    if let Ok(s) = std::str::from_utf8(b) {
        let lf = if m_list(b) { Form::Token } else { istring_form(b) };
        let f = |l: ListMailbox| match &l {
            ListMailbox::Token(t) => (Form::Token, t.as_ref().to_vec()),
            ListMailbox::String(i) => of_istring(i),
        };
        expect(ctx, "ListMailbox via &str", b, lf, ListMailbox::try_from(s).ok().map(f));
        expect(ctx, "ListMailbox via String", b, lf, ListMailbox::try_from(s.to_string()).ok().map(f));
    }
    // Explicit forms stay as chosen; INBOX is found in each of them.
    let mut explicit: Vec<(AString<'static>, Form)> = Vec::new();
    if let Ok(a) = Atom::try_from(b.to_vec()) {
        ctx.check(of_charset(&Charset::from(a.clone())) == (Form::Atom, b.to_vec()), "Charset from Atom", b, String::new);
        explicit.push((AString::from(a), Form::Atom));
    }
    if let Ok(a) = AtomExt::try_from(b.to_vec()) {
        explicit.push((AString::from(a), Form::Atom));
    }
    if let Ok(q) = Quoted::try_from(b.to_vec()) {
        ctx.check(of_charset(&Charset::from(q.clone())) == (Form::Quoted, b.to_vec()), "Charset from Quoted", b, String::new);
        ctx.check(of_istring(&IString::from(q.clone())) == (Form::Quoted, b.to_vec()), "IString from Quoted", b, String::new);
        let n = NString::from(q.clone());
        ctx.check(n.clone().into_option().as_deref() == Some(b), "NString into_option", b, String::new);
        ctx.check(matches!(n.0, Some(IString::Quoted(_))), "NString from Quoted", b, String::new);
        explicit.push((AString::from(q), Form::Quoted));
    }
    if let Ok(l) = Literal::try_from(b.to_vec()) {
        ctx.check(l.mode() == LiteralMode::Sync, "Literal default mode", b, String::new);
        let n = l.clone().into_non_sync();
        ctx.check(n.mode() == LiteralMode::NonSync && n.data() == b, "into_non_sync", b, String::new);
        let s = n.clone().into_sync();
        ctx.check(s == l, "into_sync", b, String::new);
        let mut m = l.clone();
        m.set_mode(LiteralMode::NonSync);
        ctx.check(m == n, "set_mode", b, String::new);
        ctx.check(Literal::unvalidated(b.to_vec()) == l && Literal::unvalidated_non_sync(b.to_vec()) == n, "unvalidated literals", b, String::new);
        ctx.check(of_istring(&IString::from(l.clone())) == (Form::Literal, b.to_vec()), "IString from Literal", b, String::new);
        ctx.check(IString::from(n.clone()) == IString::Literal(n.clone()), "IString from Literal", b, String::new);
        ctx.check(NString::from(n.clone()) == NString(Some(IString::Literal(n.clone()))), "NString from Literal", b, String::new);
        ctx.check(NString::from(n.clone()).into_option().as_deref() == Some(b), "NString into_option", b, String::new);
        ctx.check(AString::from(n.clone()) == AString::String(IString::Literal(n.clone())), "AString from Literal", b, String::new);
        if !inbox {
            let m = Mailbox::from(AString::from(n.clone()));
            ctx.check(matches!(&m, Mailbox::Other(o) if *o.inner() == AString::from(n.clone())), "Mailbox from Literal", b, || format!("{m:?}"));
        }
        explicit.push((AString::from(l), Form::Literal));
    }
    for (a, f) in explicit {
        ctx.check(of_astring(&a) == (f, b.to_vec()), "AString from explicit form", b, || format!("{a:?}"));
        ctx.check(a.as_ref() == b, "AString as_ref", b, || format!("{a:?}"));
        if let AString::String(i) = &a {
            ctx.check(i.as_ref() == b && i.clone().into_inner().as_ref() == b, "IString content", b, || format!("{a:?}"));
        }
        let m = Mailbox::from(a.clone());
        let ok = match &m {
            Mailbox::Inbox => inbox,
            Mailbox::Other(o) => !inbox && *o.inner() == a && o.as_ref() == b,
        };
        ctx.check(ok, "Mailbox from AString", b, || format!("{a:?} became {m:?}"));
        ctx.check(MailboxOther::try_from(a.clone()).is_ok() == !inbox, "MailboxOther from AString", b, || format!("{a:?}"));
        // The same name arriving on the wire in this form.
        if b.len() < 300 {
            let mut w: Vec<u8> = Vec::new();
            let (cmd, sign) = *r.pick(&[("SELECT", ""), ("EXAMINE", "+"), ("CREATE", ""), ("STATUS", "+"), ("", "")]);
            if cmd.is_empty() {
                w.extend_from_slice(b"* LIST () NIL ");
            } else {
                w.extend_from_slice(format!("a {cmd} ").as_bytes());
            }
            match f {
                Form::Atom => w.extend_from_slice(b),
                Form::Quoted => {
                    w.push(b'"');
                    for c in b {
                        if *c == b'"' || *c == b'\\' {
                            w.push(b'\\');
                        }
                        w.push(*c);
                    }
                    w.push(b'"');
                }
                _ => {
                    w.extend_from_slice(format!("{{{}{sign}}}\r\n", b.len()).as_bytes());
                    w.extend_from_slice(b);
                }
            }
            if cmd == "STATUS" {
                w.extend_from_slice(b" (MESSAGES)");
            }
            w.extend_from_slice(b"\r\n");
            ctx.current = w.clone();
            ctx.c("names-on-the-wire");
            let got = match decode(if cmd.is_empty() { Kind::Response } else { Kind::Command }, &w) {
                Dec::Ok { msg: Msg::Command(Command { body, .. }), .. } => match body {
                    CommandBody::Select { mailbox, .. } | CommandBody::Examine { mailbox, .. } => Some(mailbox),
                    CommandBody::Create { mailbox } | CommandBody::Status { mailbox, .. } => Some(mailbox),
                    _ => None,
                },
                Dec::Ok { msg: Msg::Response(Response::Data(Data::List { mailbox, .. })), .. } => Some(mailbox),
                _ => None,
            };
            let ok = match &got {
                Some(Mailbox::Inbox) => inbox,
                Some(Mailbox::Other(o)) => !inbox && o.as_ref() == b,
                None => false,
            };
            ctx.check(ok, "mailbox name on the wire", &w, || format!("{got:?}"));
        }
    }
    // Quoting.
    if let Ok(s) = std::str::from_utf8(b) {
        let mut want = String::new();
        for c in s.chars() {
            if c == '"' || c == '\\' {
                want.push('\\');
            }
            want.push(c);
        }
        let e = escape_quoted(s);
        ctx.check(e == want, "escape_quoted", b, || format!("{e:?}, want {want:?}"));
        let u = unescape_quoted(&want);
        ctx.check(u == s, "unescape_quoted", b, || format!("{u:?}"));
    }
}

fn c16_fixed(ctx: &mut Ctx) {
    let mut r = Rng::new(ctx.seed);
    c16_content(ctx, b"", &mut r);
    for a in 0..=255u8 {
        c16_content(ctx, &[a], &mut r);
        for b in 0..=255u8 {
            c16_content(ctx, &[a, b], &mut r);
        }
        for at in 0..5 {
            let mut v = b"INBOX".to_vec();
            v[at] = a;
            c16_content(ctx, &v, &mut r);
            let mut v = b"inbox".to_vec();
            v.insert(at, a);
            c16_content(ctx, &v, &mut r);
        }
    }
    for m in 0..32u32 {
        let v: Vec<u8> = b"inbox".iter().enumerate().map(|(i, c)| if m >> i & 1 == 1 { c.to_ascii_uppercase() } else { *c }).collect();
        for _ in 0..8 {
            c16_content(ctx, &v, &mut r);
        }
    }
    ctx.check(NString::NIL == NString(None) && NString::default() == NString(None) && NString::NIL.into_option().is_none(), "NIL", b"", String::new);
    // All strings over quote, backslash and a letter up to length 7.
    let mut buf = Vec::new();
    fn rec(ctx: &mut Ctx, r: &mut Rng, buf: &mut Vec<u8>, left: usize) {
        c16_content(ctx, buf, r);
        if left > 0 {
            for c in b"\"\\x" {
                buf.push(*c);
                rec(ctx, r, buf, left - 1);
                buf.pop();
            }
        }
    }
    rec(ctx, &mut r, &mut buf, 7);
    for n in [8_191usize, 16_384, 65_535, 65_536, 65_537, 100_000, 1 << 20] {
        for a in [b'a', b' ', b'"', b'\r', b'\n', 0, 0x7f, 0x80, b'+', b'*', b']', b'(', b'{'] {
            let mut v = vec![b'a'; n];
            v[n - 1] = a;
            all_types(ctx, &v);
        }
    }
    ctx.c("exhaustive-up-to-two-bytes");
}

fn c16(ctx: &mut Ctx, seed: u64) {
    let mut r = Rng::new(seed);
    let v = content(&mut r);
    c16_content(ctx, &v, &mut r);
}

// ----- C24 -----

pub fn recase(r: &mut Rng, s: &str) -> String {
    match r.below(4) {
        0 => s.to_ascii_lowercase(),
        1 => s.to_ascii_uppercase(),
        2 => s.to_string(),
        _ => s.chars().map(|c| if r.bool() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
    }
}

/// (canonical name, is known) of a name in a flat registry.
fn flat(known: &[&str], name: &str) -> (String, bool) {
    match known.iter().find(|k| k.eq_ignore_ascii_case(name)) {
        Some(k) => (k.to_string(), true),
        None => (name.to_string(), false),
    }
}

pub const AUTH: &[&str] = &[
    "PLAIN", "LOGIN", "OAUTHBEARER", "XOAUTH2", "SCRAM-SHA-1", "SCRAM-SHA-1-PLUS", "SCRAM-SHA-256", "SCRAM-SHA-256-PLUS",
    "SCRAM-SHA3-512", "SCRAM-SHA3-512-PLUS",
];
pub const RESOURCES: &[&str] = &["STORAGE", "MESSAGE", "MAILBOX", "ANNOTATION-STORAGE"];
pub const THREADS: &[&str] = &["ORDEREDSUBJECT", "REFERENCES"];
pub const SORTS: &[&str] = &["DISPLAY"];
pub const FLAGS: &[&str] = &["Answered", "Deleted", "Draft", "Flagged", "Seen"];
pub const ATTRS: &[&str] = &["Noinferiors", "Noselect", "Marked", "Unmarked"];
const CAPS: &[&str] = &[
    "IMAP4REV1", "LOGINDISABLED", "IDLE", "SASL-IR", "ENABLE", "QUOTA", "QUOTASET", "LITERAL+", "LITERAL-", "MOVE", "UNSELECT", "SORT",
    "BINARY", "UIDPLUS",
];
const CAPS_EXT: &[&str] = &[
    "STARTTLS", "MAILBOX-REFERRALS", "LOGIN-REFERRALS", "ID", "METADATA", "METADATA-SERVER", "CONDSTORE", "QRESYNC", "NAMESPACE",
    "UTF8=ACCEPT", "UTF8=ONLY",
];
pub const ENABLE_EXT: &[&str] = &["CONDSTORE", "METADATA", "METADATA-SERVER", "UTF8=ACCEPT", "UTF8=ONLY"];

/// Reference reading of a capability: (printed form, class).
pub fn model_cap(name: &str) -> (String, String) {
    let (n, known) = flat(CAPS, name);
    if known {
        return (n.clone(), n);
    }
    let (n, known) = flat(CAPS_EXT, name);
    if known && EXT {
        return (n.clone(), n);
    }
    let other = (name.to_string(), "other".to_string());
    let Some((l, r)) = name.split_once('=') else { return other };
    if !m_atom(r.as_bytes()) {
        return other;
    }
    let sub = |prefix: &str, (n, k): (String, bool)| (format!("{prefix}{n}"), format!("{prefix}{}", if k { n } else { "other".into() }));
    match l.to_ascii_uppercase().as_str() {
        "AUTH" => sub("AUTH=", flat(AUTH, r)),
        "COMPRESS" if r.eq_ignore_ascii_case("DEFLATE") => sub("COMPRESS=", ("DEFLATE".into(), true)),
        "SORT" => sub("SORT=", flat(SORTS, r)),
        "THREAD" => sub("THREAD=", flat(THREADS, r)),
        "QUOTA" if r.len() > 4 && r[..4].eq_ignore_ascii_case("RES-") => sub("QUOTA=RES-", flat(RESOURCES, &r[4..])),
        _ => other,
    }
}

fn class_auth(a: &AuthMechanism) -> &'static str {
    match a {
        AuthMechanism::Plain => "PLAIN",
        AuthMechanism::Login => "LOGIN",
        AuthMechanism::OAuthBearer => "OAUTHBEARER",
        AuthMechanism::XOAuth2 => "XOAUTH2",
        AuthMechanism::ScramSha1 => "SCRAM-SHA-1",
        AuthMechanism::ScramSha1Plus => "SCRAM-SHA-1-PLUS",
        AuthMechanism::ScramSha256 => "SCRAM-SHA-256",
        AuthMechanism::ScramSha256Plus => "SCRAM-SHA-256-PLUS",
        AuthMechanism::ScramSha3_512 => "SCRAM-SHA3-512",
        AuthMechanism::ScramSha3_512Plus => "SCRAM-SHA3-512-PLUS",
        _ => "other",
    }
}
fn class_resource(r: &Resource) -> &'static str {
    match r {
        Resource::Storage => "STORAGE",
        Resource::Message => "MESSAGE",
        Resource::Mailbox => "MAILBOX",
        Resource::AnnotationStorage => "ANNOTATION-STORAGE",
        Resource::Other(_) => "other",
    }
}
fn class_thread(t: &ThreadingAlgorithm) -> &'static str {
    match t {
        ThreadingAlgorithm::OrderedSubject => "ORDEREDSUBJECT",
        ThreadingAlgorithm::References => "REFERENCES",
        ThreadingAlgorithm::Other(_) => "other",
    }
}
fn class_sort(t: &SortAlgorithm) -> &'static str {
    match t {
        SortAlgorithm::Display => "DISPLAY",
        SortAlgorithm::Other(_) => "other",
    }
}
fn class_cap(c: &Capability) -> String {
    match c {
        Capability::Imap4Rev1 => "IMAP4REV1".into(),
        Capability::Auth(a) => format!("AUTH={}", class_auth(a)),
        Capability::LoginDisabled => "LOGINDISABLED".into(),
        Capability::Idle => "IDLE".into(),
        Capability::SaslIr => "SASL-IR".into(),
        Capability::Enable => "ENABLE".into(),
        Capability::Compress { algorithm: CompressionAlgorithm::Deflate } => "COMPRESS=DEFLATE".into(),
        Capability::Quota => "QUOTA".into(),
        Capability::QuotaRes(r) => format!("QUOTA=RES-{}", class_resource(r)),
        Capability::QuotaSet => "QUOTASET".into(),
        Capability::LiteralPlus => "LITERAL+".into(),
        Capability::LiteralMinus => "LITERAL-".into(),
        Capability::Move => "MOVE".into(),
        Capability::Unselect => "UNSELECT".into(),
        Capability::Sort(None) => "SORT".into(),
        Capability::Sort(Some(a)) => format!("SORT={}", class_sort(a)),
        Capability::Thread(a) => format!("THREAD={}", class_thread(a)),
        Capability::Binary => "BINARY".into(),
        Capability::UidPlus => "UIDPLUS".into(),
        Capability::Other(_) => "other".into(),
        #[cfg(feature = "ext")]
        Capability::StartTls => "STARTTLS".into(),
        #[cfg(feature = "ext")]
        Capability::MailboxReferrals => "MAILBOX-REFERRALS".into(),
        #[cfg(feature = "ext")]
        Capability::LoginReferrals => "LOGIN-REFERRALS".into(),
        #[cfg(feature = "ext")]
        Capability::Id => "ID".into(),
        #[cfg(feature = "ext")]
        Capability::Metadata => "METADATA".into(),
        #[cfg(feature = "ext")]
        Capability::MetadataServer => "METADATA-SERVER".into(),
        #[cfg(feature = "ext")]
        Capability::CondStore => "CONDSTORE".into(),
        #[cfg(feature = "ext")]
        Capability::QResync => "QRESYNC".into(),
        #[cfg(feature = "ext")]
        Capability::Namespace => "NAMESPACE".into(),
        #[cfg(feature = "ext")]
        Capability::Utf8(imap_types::extensions::utf8::Utf8Kind::Accept) => "UTF8=ACCEPT".into(),
        #[cfg(feature = "ext")]
        Capability::Utf8(imap_types::extensions::utf8::Utf8Kind::Only) => "UTF8=ONLY".into(),
        _ => "?".into(),
    }
}
fn class_enable(c: &CapabilityEnable) -> &'static str {
    match c {
        #[cfg(feature = "ext")]
        CapabilityEnable::CondStore => "CONDSTORE",
        #[cfg(feature = "ext")]
        CapabilityEnable::Metadata => "METADATA",
        #[cfg(feature = "ext")]
        CapabilityEnable::MetadataServer => "METADATA-SERVER",
        #[cfg(feature = "ext")]
        CapabilityEnable::Utf8(imap_types::extensions::utf8::Utf8Kind::Accept) => "UTF8=ACCEPT",
        #[cfg(feature = "ext")]
        CapabilityEnable::Utf8(imap_types::extensions::utf8::Utf8Kind::Only) => "UTF8=ONLY",
        CapabilityEnable::Other(_) => "other",
        _ => "?",
    }
}
fn class_flag(f: &Flag) -> &'static str {
    match f {
        Flag::Answered => "Answered",
        Flag::Deleted => "Deleted",
        Flag::Draft => "Draft",
        Flag::Flagged => "Flagged",
        Flag::Seen => "Seen",
        Flag::Extension(_) => "other",
        Flag::Keyword(_) => "keyword",
    }
}
fn class_attr(f: &FlagNameAttribute) -> &'static str {
    match f {
        FlagNameAttribute::Noinferiors => "Noinferiors",
        FlagNameAttribute::Noselect => "Noselect",
        FlagNameAttribute::Marked => "Marked",
        FlagNameAttribute::Unmarked => "Unmarked",
        FlagNameAttribute::Extension(_) => "other",
    }
}

fn named(ctx: &mut Ctx, what: &str, name: &str, got: (String, String), want: (String, String)) {
    ctx.tick();
    ctx.check(got == want, what, name.as_bytes(), || format!("(printed, variant) got {got:?}, want {want:?}"));
}
fn pair((n, k): (String, bool)) -> (String, String) {
    (n.clone(), if k { n } else { "other".into() })
}

fn registries(ctx: &mut Ctx, name: &str, wire: bool) {
    let b = name.as_bytes();
    ctx.current = b.to_vec();
    ctx.eval(b);
    let valid = m_atom(b);
    let atom = Atom::try_from(name.to_string()).ok();

    // Capability
    let want = model_cap(name);
    let mut got: Vec<(&str, Option<Capability>)> = vec![
        ("&[u8]", Capability::try_from(b).ok()),
        ("Vec", Capability::try_from(b.to_vec()).ok()),
        ("&str", Capability::try_from(name).ok()),
        ("String", Capability::try_from(name.to_string()).ok()),
    ];
    if let Some(a) = &atom {
        got.push(("Atom", Some(Capability::from(a.clone()))));
        got.push(("Atom borrowed", Some(Capability::from(Atom::try_from(name).unwrap()))));
        ctx.c(if want.1 == "other" { "capability-other" } else { "capability-known" });
    }
    for (p, g) in got {
        match g {
            None => {
                ctx.check(!valid, &format!("Capability via {p}"), b, || "refused".into());
            }
            Some(c) if valid => {
                let printed = c.to_string();
                let back = Capability::try_from(printed.clone()).ok();
                ctx.check(back.as_ref() == Some(&c), &format!("Capability read back ({p})"), b, || format!("{c:?} prints {printed:?}, reads {back:?}"));
                named(ctx, &format!("Capability via {p}"), name, (printed, class_cap(&c)), want.clone());
            }
            Some(c) => {
                ctx.fail(format!("Capability via {p}"), format!("accepted {c:?}"), b);
            }
        }
    }
    // Mechanism
    let want = pair(flat(AUTH, name));
    let got: Vec<(&str, Option<AuthMechanism>)> = vec![
        ("&[u8]", AuthMechanism::try_from(b).ok()),
        ("Vec", AuthMechanism::try_from(b.to_vec()).ok()),
        ("&str", AuthMechanism::try_from(name).ok()),
        ("String", AuthMechanism::try_from(name.to_string()).ok()),
        ("Cow", AuthMechanism::try_from(Cow::Borrowed(name)).ok()),
        ("parse", name.parse::<AuthMechanism<'static>>().ok()),
        ("Atom", atom.clone().map(AuthMechanism::from)),
    ];
    for (p, g) in got {
        ctx.check(g.is_some() == valid, &format!("AuthMechanism via {p}"), b, || format!("{g:?}"));
        if let Some(g) = g {
            ctx.check(g.as_ref() == g.to_string(), "AuthMechanism AsRef", b, String::new);
            ctx.check(AuthMechanism::try_from(g.to_string()).ok().as_ref() == Some(&g), "AuthMechanism read back", b, || format!("{g:?}"));
            named(ctx, &format!("AuthMechanism via {p}"), name, (g.to_string(), class_auth(&g).into()), want.clone());
        }
    }
    // Resource
    let want = pair(flat(RESOURCES, name));
    let got: Vec<(&str, Option<Resource>)> = vec![
        ("&[u8]", Resource::try_from(b).ok()),
        ("Vec", Resource::try_from(b.to_vec()).ok()),
        ("&str", Resource::try_from(name).ok()),
        ("String", Resource::try_from(name.to_string()).ok()),
        ("Cow", Resource::try_from(Cow::Borrowed(name)).ok()),
        ("Atom", atom.clone().map(Resource::from)),
    ];
    for (p, g) in got {
        ctx.check(g.is_some() == valid, &format!("Resource via {p}"), b, || format!("{g:?}"));
        if let Some(g) = g {
            ctx.check(Resource::try_from(g.to_string()).ok().as_ref() == Some(&g), "Resource read back", b, || format!("{g:?}"));
            named(ctx, &format!("Resource via {p}"), name, (g.to_string(), class_resource(&g).into()), want.clone());
        }
    }
    // Compression
    let want = name.eq_ignore_ascii_case("DEFLATE");
    ctx.check(CompressionAlgorithm::try_from(name).is_ok() == want, "CompressionAlgorithm via &str", b, String::new);
    ctx.check(CompressionAlgorithm::try_from(b).is_ok() == want, "CompressionAlgorithm via &[u8]", b, String::new);
    if let Some(a) = &atom {
        ctx.check(CompressionAlgorithm::try_from(a.clone()).is_ok() == want, "CompressionAlgorithm via Atom", b, String::new);
    }
    // Enable
    let g = CapabilityEnable::try_from(name).ok();
    ctx.check(g.is_some() == valid, "CapabilityEnable via &str", b, || format!("{g:?}"));
    if let Some(a) = &atom {
        let want = pair(flat(if EXT { ENABLE_EXT } else { &[] }, name));
        for g in [g.unwrap_or_else(|| CapabilityEnable::from(a.clone())), CapabilityEnable::from(a.clone())] {
            ctx.check(CapabilityEnable::try_from(g.to_string().as_str()).ok().as_ref() == Some(&g), "CapabilityEnable read back", b, || format!("{g:?}"));
            named(ctx, "CapabilityEnable", name, (g.to_string(), class_enable(&g).into()), want.clone());
        }
        let g = ThreadingAlgorithm::from(a.clone());
        named(ctx, "ThreadingAlgorithm", name, (g.to_string(), class_thread(&g).into()), pair(flat(THREADS, name)));
        ctx.check(ThreadingAlgorithm::from(Atom::try_from(g.to_string()).unwrap()) == g, "ThreadingAlgorithm read back", b, String::new);
        let g = SortAlgorithm::from(a.clone());
        named(ctx, "SortAlgorithm", name, (g.to_string(), class_sort(&g).into()), pair(flat(SORTS, name)));
        ctx.check(SortAlgorithm::from(Atom::try_from(g.to_string()).unwrap()) == g, "SortAlgorithm read back", b, String::new);
        // Flags
        let (n, k) = flat(FLAGS, name);
        let g = Flag::system(a.clone());
        let want = (format!("\\{n}"), if k { n } else { "other".to_string() });
        named(ctx, "Flag::system", name, (g.to_string(), class_flag(&g).into()), want.clone());
        let text = format!("\\{name}");
        let g2 = Flag::try_from(text.as_str()).ok();
        ctx.check(g2.as_ref() == Some(&g), "Flag from text", b, || format!("{g2:?}"));
        let printed = g.to_string();
        let g3 = Flag::try_from(printed.as_str()).ok();
        ctx.check(g3.as_ref() == Some(&g), "Flag read back", b, || format!("{g3:?}"));
        let g = Flag::keyword(a.clone());
        named(ctx, "Flag::keyword", name, (g.to_string(), class_flag(&g).into()), (name.to_string(), "keyword".into()));
        let g2 = Flag::try_from(name).ok();
        ctx.check(g2.as_ref() == Some(&g), "keyword from text", b, || format!("{g2:?}"));
        ctx.check(FlagFetch::from(g.clone()) == FlagFetch::Flag(g.clone()) && FlagPerm::from(g.clone()) == FlagPerm::Flag(g.clone()), "flag wrappers", b, String::new);
        // Mailbox attributes
        let (n, k) = flat(ATTRS, name);
        let g = FlagNameAttribute::from(a.clone());
        let want = (format!("\\{n}"), if k { n.clone() } else { "other".to_string() });
        named(ctx, "FlagNameAttribute", name, (g.to_string(), class_attr(&g).into()), want);
        ctx.check(g.is_selectability() == (k && n != "Noinferiors"), "is_selectability", b, || format!("{g:?}"));
        #[cfg(feature = "ext")]
        {
            use imap_types::extensions::condstore_qresync::AttributeFlag as A;
            let class = |f: &A| match f {
                A::Answered => "Answered",
                A::Deleted => "Deleted",
                A::Draft => "Draft",
                A::Flagged => "Flagged",
                A::Seen => "Seen",
                A::Extension(_) => "other",
                A::Keyword(_) => "keyword",
            };
            let (n, k) = flat(FLAGS, name);
            let g = A::system(a.clone());
            named(ctx, "AttributeFlag::system", name, (g.to_string(), class(&g).into()), (format!("\\\\{n}"), if k { n } else { "other".to_string() }));
            let text = g.to_string();
            let g2 = A::try_from(text.as_str()).ok();
            ctx.check(g2.as_ref() == Some(&g), "AttributeFlag read back", b, || format!("{g2:?}"));
            let g = A::keyword(a.clone());
            named(ctx, "AttributeFlag::keyword", name, (g.to_string(), class(&g).into()), (name.to_string(), "keyword".into()));
            let g2 = A::try_from(name).ok();
            ctx.check(g2.as_ref() == Some(&g), "AttributeFlag from text", b, || format!("{g2:?}"));
        }
    }
    if wire && valid {
        on_the_wire(ctx, name);
    }
}

/// The same names arriving in messages.
fn on_the_wire(ctx: &mut Ctx, name: &str) {
    let resp = |ctx: &mut Ctx, w: String| -> Option<Response<'static>> {
        ctx.current = w.clone().into_bytes();
        match decode(Kind::Response, w.as_bytes()) {
            Dec::Ok { msg: Msg::Response(r), rem } if rem.is_empty() => Some(r),
            d => {
                ctx.fail("name on the wire refused", format!("{d:?}"), w.as_bytes());
                None
            }
        }
    };
    ctx.c("names-on-the-wire");
    let w = format!("* CAPABILITY IMAP4REV1 {name}\r\n");
    if let Some(Response::Data(Data::Capability(c))) = resp(ctx, w.clone()) {
        let got: Vec<_> = c.as_ref().iter().map(|c| (c.to_string(), class_cap(c))).collect();
        ctx.same(&got, &vec![model_cap("IMAP4REV1"), model_cap(name)], "capability on the wire", w.as_bytes());
    }
    let w = format!("* OK [CAPABILITY {name} IDLE] x\r\n");
    if let Some(Response::Status(s)) = resp(ctx, w.clone()) {
        match s.code() {
            Some(Code::Capability(c)) => {
                let got: Vec<_> = c.as_ref().iter().map(|c| (c.to_string(), class_cap(c))).collect();
                ctx.same(&got, &vec![model_cap(name), model_cap("IDLE")], "capability code on the wire", w.as_bytes());
            }
            o => ctx.fail("capability code on the wire", format!("{o:?}"), w.as_bytes()),
        }
        if let Status::Untagged(_) = s {
        } else {
            ctx.fail("capability code on the wire", format!("{s:?}"), w.as_bytes());
        }
    }
    let (n, k) = flat(FLAGS, name);
    let sys = (format!("\\{n}"), if k { n.clone() } else { "other".to_string() });
    let key = (name.to_string(), "keyword".to_string());
    let w = format!("* FLAGS (\\{name} {name})\r\n");
    if let Some(Response::Data(Data::Flags(f))) = resp(ctx, w.clone()) {
        let got: Vec<_> = f.iter().map(|f| (f.to_string(), class_flag(f).to_string())).collect();
        ctx.same(&got, &vec![sys.clone(), key.clone()], "flags on the wire", w.as_bytes());
    }
    let recent = name.eq_ignore_ascii_case("recent");
    let w = format!("* 1 FETCH (FLAGS (\\{name} {name} \\rEcent))\r\n");
    if let Some(Response::Data(Data::Fetch { items, .. })) = resp(ctx, w.clone()) {
        if let Some(imap_types::fetch::MessageDataItem::Flags(f)) = items.as_ref().first() {
            let got: Vec<_> = f
                .iter()
                .map(|f| match f {
                    FlagFetch::Recent => ("\\Recent".to_string(), "Recent".to_string()),
                    FlagFetch::Flag(f) => (f.to_string(), class_flag(f).to_string()),
                })
                .collect();
            let r = ("\\Recent".to_string(), "Recent".to_string());
            ctx.same(&got, &vec![if recent { r.clone() } else { sys.clone() }, key.clone(), r], "fetch flags on the wire", w.as_bytes());
        }
    }
    let w = format!("* OK [PERMANENTFLAGS (\\{name} \\* {name})] x\r\n");
    if let Some(Response::Status(s)) = resp(ctx, w.clone()) {
        if let Some(Code::PermanentFlags(f)) = s.code() {
            let got: Vec<_> = f
                .iter()
                .map(|f| match f {
                    FlagPerm::Asterisk => ("\\*".to_string(), "*".to_string()),
                    FlagPerm::Flag(f) => (f.to_string(), class_flag(f).to_string()),
                })
                .collect();
            ctx.same(&got, &vec![sys.clone(), ("\\*".into(), "*".into()), key.clone()], "permanent flags on the wire", w.as_bytes());
        } else {
            ctx.fail("permanent flags on the wire", format!("{s:?}"), w.as_bytes());
        }
    }
    let (n, k) = flat(ATTRS, name);
    let w = format!("* LIST (\\{name}) NIL a\r\n");
    if let Some(Response::Data(Data::List { items, .. })) = resp(ctx, w.clone()) {
        let got: Vec<_> = items.iter().map(|f| (f.to_string(), class_attr(f).to_string())).collect();
        ctx.same(&got, &vec![(format!("\\{n}"), if k { n } else { "other".into() })], "mailbox attribute on the wire", w.as_bytes());
    }
    let w = format!("* QUOTA \"\" ({name} 1 2)\r\n");
    if let Some(Response::Data(Data::Quota { quotas, .. })) = resp(ctx, w.clone()) {
        let got: Vec<_> = quotas.as_ref().iter().map(|q| (q.resource.to_string(), class_resource(&q.resource).to_string())).collect();
        ctx.same(&got, &vec![pair(flat(RESOURCES, name))], "resource on the wire", w.as_bytes());
    }
    let w = format!("a AUTHENTICATE {name}\r\n");
    ctx.current = w.clone().into_bytes();
    match decode(Kind::Command, w.as_bytes()) {
        Dec::Ok { msg: Msg::Command(Command { body: CommandBody::Authenticate { mechanism, .. }, .. }), .. } => {
            named(ctx, "mechanism on the wire", &w, (mechanism.to_string(), class_auth(&mechanism).into()), pair(flat(AUTH, name)));
        }
        d => ctx.fail("mechanism on the wire", format!("{d:?}"), w.as_bytes()),
    }
    let w = format!("a ENABLE {name} X\r\n");
    ctx.current = w.clone().into_bytes();
    match decode(Kind::Command, w.as_bytes()) {
        Dec::Ok { msg: Msg::Command(Command { body: CommandBody::Enable { capabilities }, .. }), .. } => {
            let c = &capabilities.as_ref()[0];
            named(ctx, "enable on the wire", &w, (c.to_string(), class_enable(c).into()), pair(flat(if EXT { ENABLE_EXT } else { &[] }, name)));
        }
        d => ctx.fail("enable on the wire", format!("{d:?}"), w.as_bytes()),
    }
    let w = format!("a THREAD {name} us-ascii ALL\r\n");
    ctx.current = w.clone().into_bytes();
    match decode(Kind::Command, w.as_bytes()) {
        Dec::Ok { msg: Msg::Command(Command { body: CommandBody::Thread { algorithm, .. }, .. }), .. } => {
            named(ctx, "thread algorithm on the wire", &w, (algorithm.to_string(), class_thread(&algorithm).into()), pair(flat(THREADS, name)));
        }
        d => ctx.fail("thread algorithm on the wire", format!("{d:?}"), w.as_bytes()),
    }
    let w = format!("a COMPRESS {name}\r\n");
    let ok = decode(Kind::Command, w.as_bytes()).is_ok();
    ctx.check(ok == name.eq_ignore_ascii_case("deflate"), "compression on the wire", w.as_bytes(), || format!("accepted: {ok}"));
}

pub fn known_names() -> Vec<String> {
    let mut v: Vec<String> = Vec::new();
    for t in [AUTH, RESOURCES, THREADS, SORTS, FLAGS, ATTRS, CAPS, CAPS_EXT] {
        v.extend(t.iter().map(|s| s.to_string()));
    }
    v.extend(AUTH.iter().map(|s| format!("AUTH={s}")));
    v.extend(RESOURCES.iter().map(|s| format!("QUOTA=RES-{s}")));
    v.extend(THREADS.iter().map(|s| format!("THREAD={s}")));
    v.extend(SORTS.iter().map(|s| format!("SORT={s}")));
    for s in ["DEFLATE", "COMPRESS=DEFLATE", "UTF8=ACCEPT", "UTF8=ONLY", "Recent"] {
        v.push(s.into());
    }
    v
}

fn c24_fixed(ctx: &mut Ctx) {
    let mut r = Rng::new(ctx.seed);
    let names = known_names();
    for n in &names {
        registries(ctx, n, true);
        registries(ctx, &n.to_ascii_lowercase(), true);
        registries(ctx, &n.to_ascii_uppercase(), true);
        // Near misses: every prefix, every single deletion, change and insertion.
        for i in 0..n.len() {
            registries(ctx, &n[..i], i > 0);
            registries(ctx, &n[i..], true);
            let mut d = n.clone();
            d.remove(i);
            registries(ctx, &d, true);
            for c in ['X', '-', '=', '1', '+', '_'] {
                let mut d = n.clone();
                d.insert(i, c);
                registries(ctx, &d, true);
                let d = format!("{}{c}{}", &n[..i], &n[i + 1..]);
                registries(ctx, &d, true);
            }
        }
        for c in ["X", "-", "=", "1", "=X", "-PLUS", "+", "2", "S"] {
            registries(ctx, &format!("{n}{c}"), true);
            registries(ctx, &format!("{c}{n}"), true);
        }
        for p in ["AUTH", "QUOTA", "QUOTA=", "QUOTA=RES", "QUOTA=RES-", "THREAD", "SORT", "COMPRESS", "UTF8", "AUTH=", "THREAD=", "SORT=", "COMPRESS=", "UTF8=", "X=", "RES-", "AUTH==", "SORT==", "QUOTA=RES=", "THREADS="] {
            registries(ctx, &format!("{p}{n}"), true);
            registries(ctx, &recase(&mut r, &format!("{p}{n}")), true);
            registries(ctx, p, true);
        }
    }
    ctx.check(CompressionAlgorithm::Deflate.to_string() == "DEFLATE" && CompressionAlgorithm::Deflate.as_ref() == "DEFLATE", "DEFLATE", b"", String::new);
    ctx.c("enumerated-near-misses");
}

fn c24(ctx: &mut Ctx, seed: u64) {
    let mut r = Rng::new(seed);
    let names = known_names();
    let base = r.pick(&names).clone();
    let mut s = match r.below(8) {
        0..=3 => recase(&mut r, &base),
        4 => {
            let n = r.range(1, 30);
            (0..n).map(|_| r.range(0x21, 0x7e) as u8 as char).collect()
        }
        5 => {
            let o = r.pick(&names).clone();
            let sep = *r.pick(&["", "=", "-", "=RES-", "="]);
            recase(&mut r, &format!("{base}{sep}{o}"))
        }
        6 => {
            let p = *r.pick(&["AUTH=", "QUOTA=RES-", "THREAD=", "SORT=", "COMPRESS=", "UTF8="]);
            let n = r.range(0, 12);
            let x: String = (0..n).map(|_| r.range(0x21, 0x7e) as u8 as char).collect();
            format!("{}{x}", recase(&mut r, p))
        }
        _ => {
            let n = r.range(1, 4);
            (0..n).map(|_| *r.pick(b"ABCabc019=-+") as char).collect()
        }
    };
    if r.chance(1, 3) && !s.is_empty() {
        let mut c: Vec<char> = s.chars().collect();
        let at = r.below(c.len());
        match r.below(4) {
            0 => {
                c.remove(at);
            }
            1 => c.insert(at, r.range(0x21, 0x7e) as u8 as char),
            2 => c[at] = r.range(0x21, 0x7e) as u8 as char,
            _ => c[at] = *r.pick(&['ſ', 'K', 'ı', 'İ', '\0', ' ', '\u{7f}']),
        }
        s = c.into_iter().collect();
    }
    let w = r.chance(1, 6);
    registries(ctx, &s, w);
}

// ----- C25 -----

fn search_text(date: &str, key: &str) -> String {
    format!("a SEARCH {key} {date}\r\n")
}

fn decode_date(ctx: &mut Ctx, date: &str, key: &str) -> Option<chrono::NaiveDate> {
    let w = search_text(date, key);
    ctx.current = w.clone().into_bytes();
    match decode(Kind::Command, w.as_bytes()) {
        Dec::Ok { rem, msg: Msg::Command(Command { body: CommandBody::Search { criteria, .. }, .. }) } if rem.is_empty() => {
            let c = criteria.as_ref();
            if c.len() != 1 {
                return None;
            }
            let (k, d) = match &c[0] {
                SearchKey::Before(d) => ("BEFORE", d),
                SearchKey::On(d) => ("ON", d),
                SearchKey::Since(d) => ("SINCE", d),
                SearchKey::SentBefore(d) => ("SENTBEFORE", d),
                SearchKey::SentOn(d) => ("SENTON", d),
                SearchKey::SentSince(d) => ("SENTSINCE", d),
                _ => return None,
            };
            if k == key { Some(*d.as_ref()) } else { None }
        }
        _ => None,
    }
}

const DATE_KEYS: [&str; 6] = ["BEFORE", "ON", "SINCE", "SENTBEFORE", "SENTON", "SENTSINCE"];

fn check_date(ctx: &mut Ctx, y: i32, m: u32, d: u32, key: &str) {
    let c = chrono::NaiveDate::from_ymd_opt(y, m, d).unwrap();
    let canon = format!("\"{d}-{}-{y:04}\"", MONTHS[m as usize - 1]);
    ctx.eval(format!("{key} {y} {m} {d}").as_bytes());
    ctx.c("dates");
    let ok = (0..=9999).contains(&y);
    let t = NaiveDate::try_from(c);
    ctx.check(t.is_ok() == ok && NaiveDate::validate(&c).is_ok() == ok, "date accepted by year", canon.as_bytes(), || format!("{c}: {t:?}"));
    #[cfg(feature = "serde")]
    {
        let s = serde_json::to_value(c).unwrap();
        let t = de::<NaiveDate>(s.clone());
        ctx.check(t.as_ref().map(|t| *t.as_ref()) == ok.then_some(c), "date serde", canon.as_bytes(), || format!("{s} gave {t:?}"));
    }
    let Ok(t) = t else { return };
    ctx.check(*t.as_ref() == c, "date content", canon.as_bytes(), || format!("{t:?}"));
    ctx.check(NaiveDate::unvalidated(c) == t, "date unvalidated", canon.as_bytes(), String::new);
    let k = match key {
        "BEFORE" => SearchKey::Before(t),
        "ON" => SearchKey::On(t),
        "SINCE" => SearchKey::Since(t),
        "SENTBEFORE" => SearchKey::SentBefore(t),
        "SENTON" => SearchKey::SentOn(t),
        _ => SearchKey::SentSince(t),
    };
    let msg = Msg::Command(Command::new("a", CommandBody::search(None, Vec1::from(k), false)).unwrap());
    let bytes = msg.dump();
    let text = String::from_utf8_lossy(&bytes).into_owned();
    // date = date-text / DQUOTE date-text DQUOTE, one or two day digits.
    let mut legal = Vec::new();
    for day in [format!("{d}"), format!("{d:02}")] {
        let t = format!("{day}-{}-{y:04}", MONTHS[m as usize - 1]);
        legal.push(search_text(&t, key));
        legal.push(search_text(&format!("\"{t}\""), key));
    }
    ctx.check(legal.contains(&text), "date encoding", canon.as_bytes(), || text.clone());
    for l in [format!("{d}-{}-{y:04}", MONTHS[m as usize - 1]), format!("{d:02}-{}-{y:04}", MONTHS[m as usize - 1].to_ascii_uppercase()), format!("\"{d:02}-{}-{y:04}\"", MONTHS[m as usize - 1]), canon.clone()] {
        let got = decode_date(ctx, &l, key);
        ctx.check(got == Some(c), "date decoding", l.as_bytes(), || format!("{got:?}, want {c}"));
    }
    match decode(Kind::Command, &bytes) {
        Dec::Ok { msg: m, .. } => {
            ctx.same(&m, &msg, "date round trip", &bytes);
        }
        d => ctx.fail("date round trip", format!("{d:?}"), &bytes),
    }
}

fn zone_text(off: i32) -> String {
    format!("{}{:02}{:02}", if off < 0 { '-' } else { '+' }, off.abs() / 3600, off.abs() / 60 % 60)
}

fn decode_dt(ctx: &mut Ctx, text: &str) -> (Option<chrono::DateTime<FixedOffset>>, Option<chrono::DateTime<FixedOffset>>) {
    let w = format!("a APPEND x {text} {{3+}}\r\nabc\r\n");
    ctx.current = w.clone().into_bytes();
    let a = match decode(Kind::Command, w.as_bytes()) {
        Dec::Ok { rem, msg: Msg::Command(Command { body: CommandBody::Append { date: Some(d), .. }, .. }) } if rem.is_empty() => Some(*d.as_ref()),
        _ => None,
    };
    let w = format!("* 1 FETCH (INTERNALDATE {text})\r\n");
    ctx.current = w.clone().into_bytes();
    let b = match decode(Kind::Response, w.as_bytes()) {
        Dec::Ok { rem, msg: Msg::Response(Response::Data(Data::Fetch { items, .. })) } if rem.is_empty() => match items.as_ref() {
            [imap_types::fetch::MessageDataItem::InternalDate(d)] => Some(*d.as_ref()),
            _ => None,
        },
        _ => None,
    };
    (a, b)
}

#[allow(clippy::too_many_arguments)]
fn check_dt(ctx: &mut Ctx, y: i32, mo: u32, d: u32, h: u32, mi: u32, s: u32, nanos: u32, off: i32) {
    let key = format!("{y} {mo} {d} {h} {mi} {s} {nanos} {off}");
    let Some(zone) = FixedOffset::east_opt(off) else { return };
    let Some(naive) = chrono::NaiveDate::from_ymd_opt(y, mo, d).and_then(|x| x.and_hms_nano_opt(h, mi, s, nanos)) else { return };
    let chrono::LocalResult::Single(c) = zone.from_local_datetime(&naive) else { return };
    ctx.eval(key.as_bytes());
    ctx.c("date-times");
    let ok = (0..=9999).contains(&y) && nanos == 0 && off % 60 == 0;
    ctx.c(if ok { "date-times-legal" } else { "date-times-illegal" });
    let t = DateTime::try_from(c);
    ctx.check(t.is_ok() == ok && DateTime::validate(&c).is_ok() == ok, "date-time accepted", key.as_bytes(), || format!("{c}: {t:?}"));
    #[cfg(feature = "serde")]
    if off % 60 == 0 && y >= 0 && y <= 9999 && nanos < 1_000_000_000 {
        let s = serde_json::to_value(c).unwrap();
        // chrono's own text form is the reference for what the document denotes.
        if let Ok(back) = serde_json::from_value::<chrono::DateTime<FixedOffset>>(s.clone()) {
            let legal = back.nanosecond() == 0 && (0..=9999).contains(&back.year());
            let t = de::<DateTime>(s.clone());
            ctx.check(t.as_ref().map(|t| *t.as_ref()) == legal.then_some(back), "date-time serde", key.as_bytes(), || format!("{s} gave {t:?}"));
            ctx.c("date-time-documents");
        }
    }
    let Ok(t) = t else { return };
    ctx.check(*t.as_ref() == c && t.as_ref().offset() == c.offset(), "date-time content", key.as_bytes(), || format!("{t:?}"));
    let canon = format!("\"{d:02}-{}-{y:04} {h:02}:{mi:02}:{s:02} {}\"", MONTHS[mo as usize - 1], zone_text(off));
    let lit = LiteralOrLit8();
    let msg = Msg::Command(
        Command::new("a", CommandBody::Append { mailbox: Mailbox::try_from("x").unwrap(), flags: vec![], date: Some(t.clone()), message: lit }).unwrap(),
    );
    let bytes = msg.dump();
    let want = format!("a APPEND x {canon} {{3}}\r\nabc\r\n");
    let alt = if d < 10 { want.replacen("\"0", "\" ", 1) } else { want.clone() };
    ctx.check(bytes == want.as_bytes() || bytes == alt.as_bytes(), "date-time encoding", key.as_bytes(), || format!("{}\nwant {want}", String::from_utf8_lossy(&bytes)));
    let fetch = Msg::Response(Response::Data(Data::fetch(1, Vec1::from(imap_types::fetch::MessageDataItem::InternalDate(t))).unwrap()));
    let bytes = fetch.dump();
    let want = format!("* 1 FETCH (INTERNALDATE {canon})\r\n");
    let alt = if d < 10 { want.replacen("\"0", "\" ", 1) } else { want.clone() };
    ctx.check(bytes == want.as_bytes() || bytes == alt.as_bytes(), "internal date encoding", key.as_bytes(), || format!("{}\nwant {want}", String::from_utf8_lossy(&bytes)));
    let mut texts = vec![canon.clone()];
    if d < 10 {
        texts.push(canon.replacen("\"0", "\" ", 1));
    }
    for text in texts {
        let (a, b) = decode_dt(ctx, &text);
        for g in [a, b] {
            let ok = g.is_some_and(|g| g.naive_local() == c.naive_local() && g.offset() == c.offset());
            ctx.check(ok, "date-time decoding", text.as_bytes(), || format!("{g:?}, want {c:?}"));
        }
    }
}

#[allow(non_snake_case)]
fn LiteralOrLit8() -> imap_types::extensions::binary::LiteralOrLiteral8<'static> {
    imap_types::extensions::binary::LiteralOrLiteral8::Literal(Literal::try_from("abc").unwrap())
}

/// Does the text name an existing date-time? `None`: not judged.
fn bad_dt(ctx: &mut Ctx, text: &str) {
    ctx.eval(text.as_bytes());
    ctx.c("impossible-texts");
    let (a, b) = decode_dt(ctx, text);
    ctx.check(a.is_none() && b.is_none(), "impossible date-time accepted", text.as_bytes(), || format!("{a:?} {b:?}"));
}
fn bad_date(ctx: &mut Ctx, text: &str, key: &str) {
    ctx.eval(text.as_bytes());
    ctx.c("impossible-texts");
    let a = decode_date(ctx, text, key);
    ctx.check(a.is_none(), "impossible date accepted", text.as_bytes(), || format!("{a:?}"));
}

fn c25_fixed(ctx: &mut Ctx) {
    let mut i = 0;
    let mut years = vec![0, 1, 3, 4, 99, 100, 101, 400, 1000, 1582, 1600, 1899, 1900, 1970, 1999, 2000, 2023, 2024, 2037, 2038, 2100, 4000, 9996, 9999];
    if ctx.thorough {
        // Every day there is.
        years = (0..=9999).collect();
        ctx.c("every-day");
    } else {
        let mut r = Rng::new(ctx.seed ^ 0x2525);
        years.extend((0..40).map(|_| r.below(10_000) as i32));
    }
    for y in years {
        for m in 1..=12 {
            for d in 1..=31 {
                i += 1;
                let key = DATE_KEYS[i % 6];
                if d <= days_in_month(y, m) {
                    check_date(ctx, y, m, d, key);
                    check_dt(ctx, y, m, d, (i % 24) as u32, (i % 60) as u32, (i * 7 % 60) as u32, 0, (i as i32 * 61 % 2879 - 1439) * 60);
                } else {
                    let mon = MONTHS[m as usize - 1];
                    bad_date(ctx, &format!("{d}-{mon}-{y:04}"), key);
                    bad_date(ctx, &format!("\"{d}-{mon}-{y:04}\""), key);
                    bad_dt(ctx, &format!("\"{d:02}-{mon}-{y:04} 00:00:00 +0000\""));
                }
            }
        }
    }
    for y in [-2, -1, 10000, 10001, 20000, -262143, 262142] {
        for (m, d) in [(1, 1), (12, 31), (2, 28)] {
            check_date(ctx, y, m, d, "ON");
            check_dt(ctx, y, m, d, 0, 0, 0, 0, 0);
            check_dt(ctx, y, m, d, 23, 59, 59, 0, -14 * 3600);
        }
    }
    for y in 0..=9999 {
        check_date(ctx, y, 2, days_in_month(y, 2), "SINCE");
        check_dt(ctx, y, 12, 31, 23, 59, 59, 0, if y % 2 == 0 { 86340 } else { -86340 });
        check_dt(ctx, y, 1, 1, 0, 0, 0, 0, if y % 2 == 0 { 86340 } else { -86340 });
    }
    for off in -1440..=1440 {
        check_dt(ctx, 2024, 2, 29, 12, 0, 0, 0, off * 60);
        check_dt(ctx, 2024, 2, 29, 12, 0, 0, 0, off * 60 + 1);
        check_dt(ctx, 2024, 2, 29, 12, 0, 0, 0, off * 60 - 30);
    }
    for hms in 0..86400u32 {
        if hms % 7 == 0 || hms % 3600 < 2 || hms % 60 > 57 {
            check_dt(ctx, 2023, 3, 1, hms / 3600, hms / 60 % 60, hms % 60, 0, 0);
        }
    }
    for n in [1, 999, 1_000_000, 999_999_999, 1_000_000_000, 1_500_000_000] {
        check_dt(ctx, 2023, 3, 1, 23, 59, 59, n, 0);
    }
    for h in 0..100 {
        if h > 23 {
            bad_dt(ctx, &format!("\"01-Jan-2020 {h:02}:00:00 +0000\""));
            bad_dt(ctx, &format!("\"01-Jan-2020 00:00:00 +{h:02}00\""));
            bad_dt(ctx, &format!("\"01-Jan-2020 00:00:00 -{h:02}00\""));
        }
        if h > 59 {
            bad_dt(ctx, &format!("\"01-Jan-2020 00:{h:02}:00 +0000\""));
            bad_dt(ctx, &format!("\"01-Jan-2020 00:00:{h:02} +0000\""));
        }
        if h > 31 || h == 0 {
            bad_dt(ctx, &format!("\"{h:02}-Jan-2020 00:00:00 +0000\""));
            bad_date(ctx, &format!("{h}-Jan-2020"), "ON");
            bad_date(ctx, &format!("{h:02}-Jan-2020"), "ON");
        }
    }
    for m in ["Jam", "Juni", "Ju", "J", "", "01", "1", "Mrz", "Okt", "Dez", "Sept", "January", "Feb.", "jan-", "Ja"] {
        bad_date(ctx, &format!("1-{m}-2020"), "SINCE");
        bad_dt(ctx, &format!("\"01-{m}-2020 00:00:00 +0000\""));
    }
    for t in [
        "01-Jan-2020 00:00:00 +0000", "\"1-Jan-2020 00:00:00 +0000\"", "\"01-Jan-20 00:00:00 +0000\"", "\"01-Jan-02020 00:00:00 +0000\"",
        "\"01-Jan-2020  00:00:00 +0000\"", "\"01-Jan-2020 0:00:00 +0000\"", "\"01-Jan-2020 00:00 +0000\"", "\"01-Jan-2020 00:00:00 0000\"",
        "\"01-Jan-2020 00:00:00 +000\"", "\"01-Jan-2020 00:00:00 +00000\"", "\"01-Jan-2020 00:00:00 +00:00\"", "\"01-Jan-2020 00:00:00 UTC\"",
        "\"01-Jan-2020 00:00:00 Z\"", "\"01-Jan-2020 00:00:00\"", "\"01-Jan-2020T00:00:00 +0000\"", "\"01 Jan 2020 00:00:00 +0000\"", "\"  1-Jan-2020 00:00:00 +0000\"",
        "\" 11-Jan-2020 00:00:00 +0000\"", "\"01-Jan-2020 00:00:00 +0000", "\"+1-Jan-2020 00:00:00 +0000\"", "\"-1-Jan-2020 00:00:00 +0000\"",
        "\"01-Jan-+202 00:00:00 +0000\"", "\"01-Jan--202 00:00:00 +0000\"", "\"01-Jan-2020 +1:00:00 +0000\"", "\"01-Jan-2020 00:00:00 +-100\"", "\"01-Jan-2020 00:00:00.5 +0000\"",
        "\" 0-Jan-2020 00:00:00 +0000\"", "\"01-Jan-2020 24:00:00 +0000\"", "\"31-Dec-2016 23:59:60 +0000\"", "\"30-Feb-2020 00:00:00 +0000\"", "\"29-Feb-2021 00:00:00 +0000\"", "\"29-Feb-1900 00:00:00 +0000\"",
        "\"31-Apr-2020 00:00:00 +0000\"", "\"01-Jan-2020 00:00:00 +2400\"", "\"01-Jan-2020 00:00:00 -2400\"", "\"01-Jan-2020 00:00:00 +9999\"",
    ] {
        bad_dt(ctx, t);
    }
    for t in ["1-Jan-20", "1-Jan-202", "1-Jan-20200", "111-Jan-2020", "-Jan-2020", "1--2020", "1 Jan 2020", "1/Jan/2020", "\"1-Jan-2020", "1-Jan-2020\"", "+1-Jan-2020", "1-Jan-+202", " 1-Jan-2020", "29-Feb-2019", "30-Feb-2020", "29-Feb-1900", "31-Jun-2020", "2020-01-01", "Jan-1-2020"] {
        for k in DATE_KEYS {
            bad_date(ctx, t, k);
        }
    }
    ctx.c("enumerated");
}

fn c25(ctx: &mut Ctx, seed: u64) {
    let mut r = Rng::new(seed);
    let y = match r.below(6) {
        0 => *r.pick(&[0, 1, 4, 100, 400, 1900, 2000, 2024, 9999, 9996]),
        1 => r.range(1970, 2040) as i32,
        2 if r.chance(1, 4) => r.range(0, 400_000) as i32 - 200_000,
        _ => r.below(10_000) as i32,
    };
    let m = r.range(1, 12) as u32;
    let d = match r.below(4) {
        0 => 1,
        1 => days_in_month(y, m),
        _ => r.range(1, days_in_month(y, m) as usize) as u32,
    };
    if r.chance(1, 3) {
        check_date(ctx, y, m, d, DATE_KEYS[r.below(6)]);
    } else if r.chance(3, 4) {
        let (h, mi, s) = match r.below(4) {
            0 => (0, 0, 0),
            1 => (23, 59, 59),
            _ => (r.below(24), r.below(60), r.below(60)),
        };
        let off = match r.below(8) {
            0 => 0,
            1 => *r.pick(&[86340, -86340, 50400, -43200, 1800, -1800, 60, -60, 5 * 3600 + 1800, -(3 * 3600 + 1800)]),
            2 => r.range(0, 86399 * 2) as i32 - 86399,
            _ => (r.range(0, 2878) as i32 - 1439) * 60,
        };
        let nanos = if r.chance(1, 10) { r.below(2_000_000_000) as u32 } else { 0 };
        check_dt(ctx, y, m, d, h as u32, mi as u32, s as u32, nanos, off);
    } else if (0..=9999).contains(&y) {
        // A text with one field out of range.
        let mon = MONTHS[m as usize - 1];
        let (mut dd, mut h, mut mi, mut s, mut zh) = (d as usize, r.below(24), r.below(60), r.below(60), r.below(24));
        match r.below(5) {
            0 => dd = if r.chance(1, 6) { 0 } else { r.range(days_in_month(y, m) as usize + 1, 99) },
            1 => h = r.range(24, 99),
            2 => mi = r.range(60, 99),
            3 => s = r.range(60, 99),
            _ => zh = r.range(24, 99),
        }
        let sign = if r.bool() { '+' } else { '-' };
        let zm = r.below(60);
        bad_dt(ctx, &format!("\"{dd:02}-{mon}-{y:04} {h:02}:{mi:02}:{s:02} {sign}{zh:02}{zm:02}\""));
        if dd != d as usize {
            bad_date(ctx, &format!("{dd}-{mon}-{y:04}"), DATE_KEYS[r.below(6)]);
        }
    }
}
