//! C27: values produced by the `Arbitrary` implementations.
use arbitrary::{Arbitrary, Unstructured};
use bounded_static::{IntoBoundedStatic, ToBoundedStatic};
use std::num::NonZeroU32;

use imap_types::{
    auth::AuthenticateData,
    body::BodyStructure,
    command::{Command, CommandBody},
    core::{IString, NString, Tag, Text, Vec1},
    datetime::{DateTime, NaiveDate},
    envelope::Envelope,
    extensions::thread::Thread,
    fetch::MessageDataItem,
    flag::{Flag, FlagNameAttribute},
    mailbox::Mailbox,
    response::{Capability, Code, Data, Greeting, Response, Status, StatusBody, StatusKind},
    search::SearchKey,
    sequence::SequenceSet,
};

use crate::{
    Prop,
    ctx::{Ctx, cut},
    msg::{self, Dec, Msg},
    normal,
    rng::Rng,
    scan::Scan,
};

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C27", fixed: None, case: c27, quick: 1_500_000, thorough: 60_000_000 }]
}

/// Bytes to build a value from: uniform, runs, small numbers, or pieces that look like protocol text.
fn material(r: &mut Rng) -> Vec<u8> {
    let len = match r.below(8) {
        0 => r.below(16),
        1..=5 => r.below(400),
        6 => r.below(2000),
        _ => r.below(8000),
    };
    let style = r.below(7);
    if style >= 5 {
        // Choices are drawn from the front, lengths from the back: words and letters, then small numbers.
        let mut v = Vec::with_capacity(len);
        let share = r.range(1, 4);
        while v.len() < len * 2 / 3 {
            if r.below(5) < share as usize {
                v.extend_from_slice(&(r.next() as u32).to_le_bytes());
            } else {
                for _ in 0..r.range(1, 8) {
                    v.push(*r.pick(b"abcxyzABCXYZ0189-._~!#$&'/:;<=>?@^`|,"));
                }
            }
        }
        let max = r.range(1, 12);
        while v.len() < len {
            v.push(r.range(0, max) as u8);
        }
        return v;
    }
    let mut v = Vec::with_capacity(len);
    while v.len() < len {
        match if style == 4 { r.below(4) } else { style } {
            0 => v.push(r.next() as u8),
            1 => v.push(r.range(0, 8) as u8),
            2 => {
                let b = *r.pick(&[0u8, 0xff, 1, 0x80, 0x7f, b'a', b'[', b'\r', b'\n', b'"', b'\\', b' ', b'+', b'{', b'}', b']', b'(', b'*', 0xc3, 0xa9]);
                for _ in 0..r.range(1, 12) {
                    v.push(b);
                }
            }
            _ => {
                let w: &[u8] = r.pick(&[
                    b"\\Seen".as_slice(), b"IMAP4REV1", b"IDLE", b"inbox", b"INBOX", b"AUTH=PLAIN", b"QUOTA=RES-X", b"STORAGE", b"\\Noselect", b"[x]", b"[", b"[a] b", b"aGVsbG8=", b"{3}\r\n", b"{3+}\r\nabc", b"a\r\nb", b"\r\n", b"NIL", b"()", b"\"", b"\\\"", b"\xc3\xa9\r\n",
                    b"\xc3\xa9", b"X", b"ab", b"a b", b"$Forwarded", b"1:*", b"\0", b"PLAIN", b"CONDSTORE", b"UTF8=ACCEPT",
                ]);
                v.extend_from_slice(w);
            }
        }
    }
    v.truncate(len);
    v
}

fn build<'a, T>(r: &mut Rng, bytes: &'a [u8], ctx: &mut Ctx, name: &str) -> Vec<T>
where
    T: Arbitrary<'a>,
{
    let (lo, hi) = T::size_hint(0);
    ctx.check(hi.is_none_or(|h| lo <= h), "size hint is not a range", name.as_bytes(), || format!("{name}: {lo} {hi:?}"));
    let mut out = Vec::new();
    let mut u = Unstructured::new(bytes);
    if r.chance(1, 3) {
        match T::arbitrary_take_rest(u) {
            Ok(v) => out.push(v),
            Err(_) => ctx.c("no-value"),
        }
        return out;
    }
    for _ in 0..16 {
        let left = u.len();
        match T::arbitrary(&mut u) {
            Ok(v) => out.push(v),
            Err(_) => ctx.c("no-value"),
        }
        if u.is_empty() || u.len() == left {
            break;
        }
    }
    out
}

/// The variant's name, for coverage.
fn variant(d: &str) -> String {
    let mut words = d.split(|c: char| !c.is_ascii_alphanumeric()).filter(|w| !w.is_empty());
    let first = words.next().unwrap_or("").to_string();
    match first.as_str() {
        "Continue" | "Cancel" => first,
        "Command" => d.find("body: ").map(|i| format!("Command::{}", d[i + 6..].split(|c: char| !c.is_ascii_alphanumeric()).next().unwrap_or(""))).unwrap_or(first),
        _ => format!("{first}::{}", words.next().unwrap_or("")),
    }
}

fn judge(ctx: &mut Ctx, m: Msg, bytes: &[u8]) {
    let d = format!("{m:?}");
    // Skip the wrapper's own name.
    let shown = d.split_once('(').map(|x| x.1).unwrap_or(&d);
    ctx.c(&variant(shown));
    ctx.eval(d.as_bytes());
    let mut s = Scan { b: d.as_bytes(), at: 0, bad: None, unvalidated: false, seen: Default::default() };
    s.run();
    for n in s.seen {
        ctx.c(&format!("judged:{n}"));
    }
    if let Some(bad) = s.bad {
        ctx.fail(format!("generated an invalid value: {}", bad.split(" holding ").next().unwrap_or("")), format!("{bad}\n{}", cut(&d)), bytes);
        return;
    }
    let wire = m.dump();
    ctx.c("encoded");
    match msg::decode(m.kind(), &wire) {
        Dec::Ok { rem, msg } => {
            ctx.check(rem.is_empty(), "generated value leaves a remainder", &wire, || cut(&d));
            let want = normal::normalise(m.clone());
            ctx.same(&msg, &want, "generated value does not come back", &wire);
        }
        other => ctx.fail("generated value does not decode", format!("{}\n{}", other.name(), cut(&d)), &wire),
    }
}

fn c27(ctx: &mut Ctx, seed: u64) {
    let mut r = Rng::new(seed);
    let bytes = material(&mut r);
    ctx.current = bytes.clone();
    macro_rules! go {
        ($t:ident, $v:ident) => {
            for v in build::<$t>(&mut r, &bytes, ctx, stringify!($t)) {
                let kept = v.to_static();
                ctx.same(&kept, &v, "detached copy differs", &bytes);
                let owned = v.into_static();
                ctx.same(&owned, &kept, "detached value differs", &bytes);
                judge(ctx, Msg::$v(owned), &bytes);
            }
        };
    }
    // Parts on their own, placed in a message.
    macro_rules! part {
        ($t:ty, |$x:ident| $m:expr) => {{
            for $x in build::<$t>(&mut r, &bytes, ctx, stringify!($t)) {
                let kept = $x.to_static();
                ctx.same(&kept, &$x, "detached copy differs", &bytes);
                let $x = kept;
                ctx.c(concat!("part:", stringify!($t)));
                judge(ctx, $m, &bytes);
            }
        }};
    }
    let cmd = |body| Msg::Command(Command { tag: Tag::unvalidated("A"), body });
    let search = |k| CommandBody::Search { charset: None, criteria: Vec1::from(k), uid: false };
    let data = |d| Msg::Response(Response::Data(d));
    let one = NonZeroU32::MIN;
    let fetch = |i| Data::Fetch { seq: one, items: Vec1::from(i) };
    let text = || Text::unvalidated("x");
    let status = |code| Msg::Response(Response::Status(Status::Untagged(StatusBody { kind: StatusKind::Ok, code: Some(code), text: text() })));
    match r.below(32) {
        0 => go!(Greeting, Greeting),
        1..=3 => go!(Command, Command),
        4 => go!(AuthenticateData, Auth),
        5..=7 => go!(Response, Response),
        8..=12 => part!(CommandBody, |x| cmd(x)),
        13..=15 => part!(Data, |x| data(x)),
        16 => part!(SearchKey, |x| cmd(search(x))),
        17 => part!(NaiveDate, |x| cmd(search(SearchKey::On(x)))),
        18 | 19 => part!(BodyStructure, |x| data(fetch(MessageDataItem::BodyStructure(x)))),
        20 => part!(Envelope, |x| data(fetch(MessageDataItem::Envelope(x)))),
        21 => part!(MessageDataItem, |x| data(fetch(x))),
        22 => part!(DateTime, |x| data(fetch(MessageDataItem::InternalDate(x)))),
        23 => part!(Thread, |x| data(Data::Thread(vec![x]))),
        24 => part!(Capability, |x| data(Data::Capability(Vec1::from(x)))),
        25 => part!(Flag, |x| data(Data::Flags(vec![x]))),
        26 | 27 => part!(Code, |x| status(x)),
        28 => part!(FlagNameAttribute, |x| data(Data::List { items: vec![x], delimiter: None, mailbox: Mailbox::Inbox })),
        29 => part!(Mailbox, |x| cmd(CommandBody::Create { mailbox: x })),
        30 => part!(SequenceSet, |x| cmd(CommandBody::Copy { sequence_set: x, mailbox: Mailbox::Inbox, uid: true })),
        _ => part!(IString, |x| data(fetch(MessageDataItem::Rfc822(NString(Some(x)))))),
    }
}
