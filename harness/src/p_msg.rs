//! C15 (injection), C19 (secrets), C20 (detached copies), C22 (tags), C26 (constructors).
#[cfg(feature = "taggen")]
use std::collections::HashSet;

use bounded_static::{IntoBoundedStatic, ToBoundedStatic};
use imap_codec::{
    AuthenticateDataCodec, CommandCodec, GreetingCodec, ResponseCodec,
    decode::Decoder,
    encode::{Encoder, Fragment},
    fragmentizer::{DecodeMessageError, Fragmentizer},
};
use imap_types::{
    auth::{AuthMechanism, AuthenticateData},
    body::*,
    command::*,
    core::*,
    envelope::{Address, Envelope},
    extensions::{binary::LiteralOrLiteral8, quota::*},
    fetch::*,
    flag::*,
    mailbox::{ListMailbox, Mailbox},
    response::*,
    search::SearchKey,
    secret::Secret,
};

use crate::{
    Prop,
    cogen::{self, G},
    ctx::{Ctx, cut},
    msg::{Codes, Dec, KINDS, Kind, Msg, decode, decode_static},
    mutate, p_codec,
    p_frag::announcement,
    p_types::content,
    rng::{Rng, mix},
    wire::{b64, show},
};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C15", fixed: Some(c15_fixed), case: c15, quick: 1500000, thorough: 12_000_000 },
        Prop { id: "C19", fixed: None, case: c19, quick: 1200000, thorough: 8_000_000 },
        Prop { id: "C20", fixed: None, case: c20, quick: 1000000, thorough: 10_000_000 },
        #[cfg(feature = "taggen")]
        Prop { id: "C22", fixed: Some(tags::c22_fixed), case: tags::c22, quick: 4000, thorough: 40_000 },
        Prop { id: "C26", fixed: None, case: c26, quick: 2000000, thorough: 20_000_000 },
    ]
}

// ----- C15 -----

const POSITIONS: usize = 66;

/// A message with the content `c` at string position `k`, if the constructors let it through.
fn inject(k: usize, c: &[u8], r: &mut Rng) -> Option<(&'static str, Msg)> {
    let s = std::str::from_utf8(c).ok();
    let v = || c.to_vec();
    let cmd = |b: CommandBody<'static>| Msg::Command(Command::new("A1", b).unwrap());
    let data = |d: Data<'static>| Msg::Response(Response::Data(d));
    let stat = |s: Status<'static>| Msg::Response(Response::Status(s));
    let item = |i: MessageDataItem<'static>| Msg::Response(Response::Data(Data::Fetch { seq: 1.try_into().unwrap(), items: Vec1::from(i) }));
    let search = |k: SearchKey<'static>| Msg::Command(Command::new("A1", CommandBody::search(None, Vec1::from(k), false)).unwrap());
    let lit = |r: &mut Rng| -> Option<Literal<'static>> {
        let mut l = Literal::try_from(c.to_vec()).ok()?;
        if r.bool() {
            l.set_mode(LiteralMode::NonSync);
        }
        Some(l)
    };
    let astring = |r: &mut Rng| -> Option<AString<'static>> {
        match r.below(4) {
            0 => Some(AString::String(IString::Literal(lit(r)?))),
            1 => Some(AString::String(IString::Quoted(Quoted::try_from(c.to_vec()).ok()?))),
            2 => Some(AString::Atom(AtomExt::try_from(c.to_vec()).ok()?)),
            _ => AString::try_from(c.to_vec()).ok(),
        }
    };
    let istring = |r: &mut Rng| -> Option<IString<'static>> {
        match r.below(3) {
            0 => Some(IString::Literal(lit(r)?)),
            1 => Some(IString::Quoted(Quoted::try_from(c.to_vec()).ok()?)),
            _ => IString::try_from(c.to_vec()).ok(),
        }
    };
    let nstring = |r: &mut Rng| Some(NString(Some(istring(r)?)));
    let mailbox = |r: &mut Rng| -> Option<Mailbox<'static>> {
        match r.below(3) {
            0 => Some(Mailbox::from(astring(r)?)),
            1 => Mailbox::try_from(c.to_vec()).ok(),
            _ => Mailbox::try_from(String::from_utf8(c.to_vec()).ok()?).ok(),
        }
    };
    let atom = || Atom::try_from(v()).ok();
    let tx = "t".to_string();
    let none = NString(None);
    let basic = |r: &mut Rng, k: usize| -> Option<BasicFields<'static>> {
        let mut b = BasicFields {
            parameter_list: vec![],
            id: NString(None),
            description: NString(None),
            content_transfer_encoding: IString::try_from("7bit").unwrap(),
            size: 1,
        };
        match k {
            0 => b.parameter_list = vec![(istring(r)?, istring(r)?)],
            1 => b.id = nstring(r)?,
            2 => b.description = nstring(r)?,
            _ => b.content_transfer_encoding = istring(r)?,
        }
        Some(b)
    };
    let plain = || BasicFields {
        parameter_list: vec![],
        id: NString(None),
        description: NString(None),
        content_transfer_encoding: IString::try_from("7bit").unwrap(),
        size: 1,
    };
    let text_body = |b: BasicFields<'static>, ext: Option<SinglePartExtensionData<'static>>| {
        MessageDataItem::BodyStructure(BodyStructure::Single {
            body: Body { basic: b, specific: SpecificFields::Text { subtype: IString::try_from("plain").unwrap(), number_of_lines: 1 } },
            extension_data: ext,
        })
    };
    let (name, m) = match k {
        0 => ("login user", cmd(CommandBody::login(v(), "p").ok()?)),
        1 => ("login password", cmd(CommandBody::login("u", v()).ok()?)),
        2 => ("login forms", cmd(CommandBody::Login { username: astring(r)?, password: Secret::new(astring(r)?) })),
        3 => ("select", cmd(CommandBody::select(mailbox(r)?).ok()?)),
        4 => ("create", cmd(CommandBody::create(v()).ok()?)),
        5 => ("rename from", cmd(CommandBody::rename(mailbox(r)?, "x").ok()?)),
        6 => ("rename to", cmd(CommandBody::rename("x", mailbox(r)?).ok()?)),
        7 => ("list reference", cmd(CommandBody::list(mailbox(r)?, "*").ok()?)),
        8 => ("list wildcard", cmd(CommandBody::list("", match r.below(3) {
            0 => ListMailbox::String(istring(r)?),
            1 => ListMailbox::Token(imap_types::mailbox::ListCharString::try_from(s?.to_string()).ok()?),
            _ => ListMailbox::try_from(s?).ok()?.into_static(),
        }).ok()?)),
        9 => ("list wildcard str", cmd(CommandBody::lsub("", ListMailbox::try_from(s?.to_string()).ok()?).ok()?)),
        10 => ("status", cmd(CommandBody::status(mailbox(r)?, vec![imap_types::status::StatusDataItemName::Messages]).ok()?)),
        11 => ("append mailbox", cmd(CommandBody::append(mailbox(r)?, vec![], None, b"x".to_vec()).ok()?)),
        12 => ("append data", cmd(CommandBody::append("x", vec![], None, lit(r)?).ok()?)),
        13 => {
            use imap_types::extensions::binary::Literal8;
            ("append literal8", cmd(CommandBody::Append { mailbox: Mailbox::Inbox, flags: vec![], date: None, message: LiteralOrLiteral8::Literal8(Literal8 { data: v().into(), mode: if r.bool() { LiteralMode::Sync } else { LiteralMode::NonSync } }) }))
        }
        14 => ("append flag", cmd(CommandBody::append("x", vec![Flag::keyword(atom()?)], None, b"x".to_vec()).ok()?)),
        15 => ("search bcc", search(SearchKey::Bcc(astring(r)?))),
        16 => ("search body", search(SearchKey::Body(astring(r)?))),
        17 => ("search header name", search(SearchKey::Header(astring(r)?, AString::try_from("v").unwrap()))),
        18 => ("search header value", search(SearchKey::Header(AString::try_from("h").unwrap(), astring(r)?))),
        19 => ("search keyword", search(SearchKey::Keyword(atom()?))),
        20 => ("search unkeyword", search(SearchKey::Unkeyword(atom()?))),
        21 => ("search text", search(SearchKey::Not(Box::new(SearchKey::Text(astring(r)?))))),
        22 => ("search subject", search(SearchKey::And(Vec1::try_from(vec![SearchKey::Subject(astring(r)?), SearchKey::All]).unwrap()))),
        23 => ("search charset", cmd(CommandBody::search(Some(Charset::try_from(s?.to_string()).ok()?), Vec1::from(SearchKey::All), true))),
        24 => ("fetch header fields", cmd(CommandBody::fetch("1", MacroOrMessageDataItemNames::MessageDataItemNames(vec![MessageDataItemName::BodyExt { section: Some(Section::HeaderFields(None, Vec1::from(astring(r)?))), partial: None, peek: false }]), false).ok()?)),
        25 => ("store flag", cmd(CommandBody::store("1", StoreType::Add, StoreResponse::Answer, vec![Flag::try_from(s?).ok()?.into_static()], false).ok()?)),
        26 => ("store system flag", cmd(CommandBody::store("1", StoreType::Add, StoreResponse::Silent, vec![Flag::system(atom()?)], false).ok()?)),
        27 => ("copy", cmd(CommandBody::copy("1", mailbox(r)?, false).ok()?)),
        28 => ("move", cmd(CommandBody::r#move("1", mailbox(r)?, true).ok()?)),
        29 => ("tag", Msg::Command(Command::new(v(), CommandBody::Noop).ok()?)),
        30 => ("auth mechanism", cmd(CommandBody::authenticate(AuthMechanism::try_from(v()).ok()?))),
        31 => ("initial response", cmd(CommandBody::authenticate_with_ir(AuthMechanism::Plain, v()))),
        32 => ("authenticate data", Msg::Auth(AuthenticateData::r#continue(v()))),
        33 => ("quota root", cmd(CommandBody::get_quota(astring(r)?).ok()?)),
        34 => ("quota resource", cmd(CommandBody::set_quota("r", vec![QuotaSet::new(Resource::try_from(v()).ok()?, 1)]).ok()?)),
        35 => ("enable", cmd(CommandBody::enable(vec![imap_types::extensions::enable::CapabilityEnable::from(atom()?)]).ok()?)),
        36 => ("greeting text", Msg::Greeting(Greeting::ok(None, s?).ok()?.into_static())),
        37 => ("greeting code text", Msg::Greeting(Greeting::bye(Some(Code::Alert), s?).ok()?.into_static())),
        38 => ("status text", stat(Status::ok(None, None, v()).ok()?)),
        39 => ("status tagged text", stat(Status::no(Some(Tag::try_from("t").unwrap()), Some(Code::ReadOnly), v()).ok()?)),
        40 => ("status tag", stat(Status::bad(Some(Tag::try_from(v()).ok()?), None, "x").ok()?)),
        41 => ("bye text", stat(Status::bye(None, v()).ok()?)),
        42 => ("badcharset", stat(Status::no(None, Some(Code::badcharset(vec![Charset::try_from(s?.to_string()).ok()?])), tx.clone()).ok()?)),
        43 => ("code capability", stat(Status::ok(None, Some(Code::Capability(Vec1::from(Capability::from(atom()?)))), tx.clone()).ok()?)),
        44 => ("permanent flags", stat(Status::ok(None, Some(Code::permanentflags(vec![FlagPerm::Flag(Flag::keyword(atom()?))])), tx.clone()).ok()?)),
        45 => ("continue text", Msg::Response(Response::CommandContinuationRequest(CommandContinuationRequest::basic(None, v()).ok()?))),
        46 => ("continue code text", Msg::Response(Response::CommandContinuationRequest(CommandContinuationRequest::basic(Some(Code::Alert), v()).ok()?))),
        47 => ("continue base64", Msg::Response(Response::CommandContinuationRequest(CommandContinuationRequest::base64(v())))),
        48 => ("capability", data(Data::capability(vec![Capability::try_from(v()).ok()?]).ok()?)),
        49 => ("list mailbox", data(Data::List { items: vec![], delimiter: None, mailbox: mailbox(r)? })),
        50 => {
            let ch = s?.chars().next()?;
            ("list delimiter", data(Data::Lsub { items: vec![], delimiter: Some(QuotedChar::try_from(ch).ok()?), mailbox: Mailbox::Inbox }))
        }
        51 => ("list attribute", data(Data::List { items: vec![FlagNameAttribute::from(atom()?)], delimiter: None, mailbox: Mailbox::Inbox })),
        52 => ("status mailbox", data(Data::Status { mailbox: mailbox(r)?, items: vec![].into() })),
        53 => ("flags", data(Data::Flags(vec![Flag::keyword(atom()?)]))),
        54 => ("quota", data(Data::quota(astring(r)?, vec![QuotaGet::new(Resource::Storage, 1, 2)]).ok()?)),
        55 => ("quotaroot", data(Data::quota_root("x", vec![astring(r)?]).ok()?)),
        56 => ("fetch body ext", item(MessageDataItem::BodyExt { section: None, origin: None, data: nstring(r)? })),
        57 => ("fetch rfc822", item(MessageDataItem::Rfc822(nstring(r)?))),
        58 => {
            let mut e = Envelope { date: none.clone(), subject: none.clone(), from: vec![], sender: vec![], reply_to: vec![], to: vec![], cc: vec![], bcc: vec![], in_reply_to: none.clone(), message_id: none.clone() };
            match r.below(4) {
                0 => e.date = nstring(r)?,
                1 => e.subject = nstring(r)?,
                2 => e.in_reply_to = nstring(r)?,
                _ => e.message_id = nstring(r)?,
            }
            ("envelope", item(MessageDataItem::Envelope(e)))
        }
        59 => {
            let mut e = Envelope { date: none.clone(), subject: none.clone(), from: vec![], sender: vec![], reply_to: vec![], to: vec![], cc: vec![], bcc: vec![], in_reply_to: none.clone(), message_id: none.clone() };
            let mut a = Address { name: none.clone(), adl: none.clone(), mailbox: none.clone(), host: none.clone() };
            match r.below(4) {
                0 => a.name = nstring(r)?,
                1 => a.adl = nstring(r)?,
                2 => a.mailbox = nstring(r)?,
                _ => a.host = nstring(r)?,
            }
            *[&mut e.from, &mut e.sender, &mut e.reply_to, &mut e.to, &mut e.cc, &mut e.bcc][r.below(6)] = vec![a];
            ("address", item(MessageDataItem::Envelope(e)))
        }
        60 => {
            let k = r.below(4);
            ("body fields", item(text_body(basic(r, k)?, None)))
        }
        61 => {
            let e = SinglePartExtensionData {
                md5: nstring(r)?,
                tail: Some(Disposition {
                    disposition: Some((istring(r)?, vec![(istring(r)?, istring(r)?)])),
                    tail: Some(Language { language: vec![istring(r)?], tail: Some(Location { location: nstring(r)?, extensions: vec![BodyExtension::NString(nstring(r)?)] }) }),
                }),
            };
            ("body extension data", item(text_body(plain(), Some(e))))
        }
        62 => ("body subtype", item(MessageDataItem::Body(BodyStructure::Single { body: Body { basic: plain(), specific: SpecificFields::Text { subtype: istring(r)?, number_of_lines: 1 } }, extension_data: None }))),
        #[cfg(feature = "ext")]
        63 => ("id", {
            let parameters = Some(vec![(istring(r)?, nstring(r)?)]);
            if r.bool() { cmd(CommandBody::Id { parameters }) } else { data(Data::Id { parameters }) }
        }),
        #[cfg(feature = "ext")]
        64 => ("namespace", {
            use imap_types::extensions::namespace::*;
            let mut n = Namespace::new(istring(r)?, None);
            if r.bool() {
                n.extensions.push(NamespaceResponseExtension { key: istring(r)?, values: Vec1::from(istring(r)?) });
            }
            data(Data::namespace(vec![n], vec![], vec![]).ok()?)
        }),
        #[cfg(feature = "ext")]
        65 => ("metadata", {
            use imap_types::extensions::metadata::*;
            let e = Entry::try_from(astring(r)?).ok()?;
            let value = NString8::NString(nstring(r)?);
            match r.below(3) {
                0 => cmd(CommandBody::SetMetadata { mailbox: mailbox(r)?, entry_values: Vec1::from(EntryValue { entry: e, value }) }),
                1 => cmd(CommandBody::GetMetadata { options: vec![], mailbox: mailbox(r)?, entries: Vec1::from(e) }),
                _ => data(Data::Metadata { mailbox: mailbox(r)?, items: MetadataResponse::WithValues(Vec1::from(EntryValue { entry: e, value })) }),
            }
        }),
        _ => return None,
    };
    Some((name, m))
}

fn judge_injection(ctx: &mut Ctx, name: &'static str, m: &Msg, c: &[u8]) {
    let dump = m.dump();
    ctx.current = dump.clone();
    ctx.eval(&dump);
    for f in m.fragments() {
        if let Fragment::Line { data } = f {
            let inner = data.strip_suffix(b"\r\n");
            ctx.check(inner.is_some_and(|d| !d.iter().any(|b| [0, b'\r', b'\n'].contains(b))), &format!("control byte outside literals: {name}"), c, || format!("line fragment {}", show(&data)));
        }
    }
    // A receiver's framing of the bytes.
    let free_text = name.ends_with("text");
    let (mut at, mut msgs, mut bad) = (0, 0, false);
    while at < dump.len() {
        let Some(n) = dump[at..].iter().position(|b| *b == b'\n') else {
            bad = true;
            break;
        };
        let line = &dump[at..at + n];
        let line = line.strip_suffix(b"\r").unwrap_or(line);
        at += n + 1;
        match announcement(line) {
            Some((len, _)) if dump.len() - at >= len as usize => at += len as usize,
            Some(_) => {
                bad = true;
                break;
            }
            None => msgs += 1,
        }
    }
    if free_text && announcement(c).is_some() {
        // The protocol cannot say this unambiguously: a text that reads as a literal announcement.
        ctx.c("text-like-announcement");
    } else {
        ctx.check(msgs == 1 && !bad, &format!("not framed as one message: {name}"), c, || format!("{msgs} messages, unfinished {bad}: {}", show(&dump)));
    }
    if free_text && c.first() == Some(&b'[') && !name.contains("code") && !name.contains("tagged") {
        // Reads as a response code: also inexpressible.
        return;
    }
    match decode(m.kind(), &dump) {
        Dec::Ok { rem, msg } => {
            ctx.check(rem.is_empty(), &format!("remainder: {name}"), c, || show(&rem));
            ctx.same(&msg, m, &format!("read back differently: {name}"), &dump);
        }
        o => ctx.fail(format!("not readable: {name}"), format!("{}: {}", o.name(), show(&dump)), c),
    }
}

fn c15(ctx: &mut Ctx, seed: u64) {
    let mut r = Rng::new(seed);
    let k = r.below(POSITIONS);
    let mut c = content(&mut r);
    if r.chance(1, 4) {
        // Attack strings.
        let pool: &[&[u8]] = &[b"\r\nA2 DELETE x", b"\nA2 NOOP\r\n", b"{5}", b"{3+}\r\nabc", b"~{2}", b"\" x", b"\\\"", b"\\", b"\0", b")", b" (", b"]", b"[ALERT] x", b"* BYE\r\n", b"\r", b"\n", b"NIL", b"nil", b"*", b"+", b"=", b"{0}", b"a{1}"];
        let mut v = Vec::new();
        for _ in 0..r.range(1, 3) {
            if r.chance(1, 3) {
                v.extend_from_slice(b"ab");
            }
            v.extend_from_slice(r.pick(pool));
        }
        c = v;
    }
    ctx.current = c.clone();
    match inject(k, &c, &mut r) {
        Some((name, m)) => {
            ctx.c(name);
            judge_injection(ctx, name, &m, &c);
        }
        None => {
            ctx.c("refused");
            ctx.tick();
        }
    }
}
/// Every position with every byte at the start, in the middle and at the end of a short content.
fn c15_fixed(ctx: &mut Ctx) {
    let mut r = Rng::new(15);
    for k in 0..POSITIONS {
        for b in 0..=255u8 {
            for c in [vec![b], vec![b'a', b], vec![b, b'a'], vec![b'a', b, b'a'], vec![b'a', b' ', b]] {
                ctx.current = c.clone();
                if let Some((name, m)) = inject(k, &c, &mut r) {
                    ctx.c("enumerated");
                    judge_injection(ctx, name, &m, &c);
                }
            }
        }
    }
}

// ----- C19 -----

/// All the debug formats there are.
fn formats<T: std::fmt::Debug>(t: &T) -> String {
    format!("{t:?}\u{1}{t:#?}\u{1}{t:x?}\u{1}{t:#x?}\u{1}{t:X?}\u{1}{t:02x?}\u{1}{t:40?}\u{1}{t:.7?}\u{1}{t:+?}")
}
fn secret_pair(r: &mut Rng, kind: usize) -> (Vec<u8>, Vec<u8>) {
    let n = match r.below(4) {
        0 => r.range(1, 4),
        3 => r.range(40, 300),
        _ => r.range(5, 40),
    };
    let one = |r: &mut Rng| -> Vec<u8> {
        let mut v: Vec<u8> = (0..n)
            .map(|_| match kind {
                0 => *r.pick(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_."),
                1 => *r.pick(b"abcdefghijklmnopqrstuvwxyz ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!@#$%^&*()[]{}"),
                _ => r.range(1, 255) as u8,
            })
            .collect();
        match kind {
            // Keep the form the constructors pick the same for both.
            1 => v[0] = b' ',
            2 => v[0] = 0xff,
            _ => {}
        }
        v
    };
    (one(r), one(r))
}
fn no_leak<T: std::fmt::Debug>(ctx: &mut Ctx, a: &T, b: &T, secret: &[u8], what: &str) {
    let (fa, fb) = (formats(a), formats(b));
    ctx.check(fa == fb, &format!("debug output depends on the secret: {what}"), secret, || format!("{}\nversus\n{}", cut(&fa), cut(&fb)));
    // Also look for the secret itself.
    if secret.len() >= 6 {
        let squeezed: String = fa.chars().filter(|c| !c.is_whitespace()).collect();
        let windows = [
            secret.escape_ascii().to_string(),
            String::from_utf8_lossy(secret).escape_debug().to_string(),
            secret.iter().map(|b| b.to_string()).collect::<Vec<_>>().join(","),
            secret.iter().map(|b| format!("{b:02x}")).collect::<String>(),
            b64(secret),
        ];
        for w in windows {
            let w: String = w.chars().filter(|c| !c.is_whitespace()).collect();
            ctx.check(w.len() < 6 || !squeezed.contains(&w), &format!("debug output contains the secret: {what}"), secret, || cut(&fa));
        }
    }
}
// What the library logs while it handles a secret, at the most verbose level.
thread_local! { static LOGGED: std::cell::RefCell<(u64, String)> = const { std::cell::RefCell::new((0, String::new())) }; }
struct Recorder;
impl log::Log for Recorder {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        LOGGED.with(|l| {
            let mut l = l.borrow_mut();
            l.0 += 1;
            l.1.push_str(&format!("{} {}: {}\n", r.level(), r.target(), r.args()));
        });
    }
    fn flush(&self) {}
}
static RECORDER: Recorder = Recorder;
fn logged(f: impl FnOnce()) -> (u64, String) {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        let _ = log::set_logger(&RECORDER);
        log::set_max_level(log::LevelFilter::Trace);
    });
    LOGGED.with(|l| *l.borrow_mut() = (0, String::new()));
    f();
    LOGGED.with(|l| std::mem::take(&mut *l.borrow_mut()))
}
/// Send, frame, receive (whole, in pieces, too long, poisoned, undecodable) a message with this secret in it.
fn handle_secret(x: &[u8], form: usize, r: &mut Rng) {
    let body = b64(x);
    let with_password = |p: AString<'static>| Msg::Command(Command::new("A", CommandBody::login("user", p).unwrap()).unwrap());
    let quoted = || Quoted::try_from(x.to_vec()).map(|q| AString::String(IString::Quoted(q)));
    let msg = match form % 5 {
        0 => with_password(AString::try_from(x.to_vec()).unwrap_or_else(|_| AString::try_from(body.clone().into_bytes()).unwrap())),
        1 => with_password(quoted().unwrap_or_else(|_| AString::try_from(body.clone().into_bytes()).unwrap())),
        2 => match Literal::try_from(x.to_vec()) {
            Ok(l) => with_password(AString::String(IString::Literal(l))),
            Err(_) => return,
        },
        3 => Msg::Command(CommandBody::authenticate_with_ir(AuthMechanism::Plain, x.to_vec()).tag("A").unwrap()),
        _ => Msg::Auth(AuthenticateData::r#continue(x.to_vec())),
    };
    let wire = msg.dump();
    if let Msg::Command(c) = &msg {
        for f in CommandCodec::default().encode(c) {
            let _ = f;
        }
    }
    let cut = r.below(wire.len() + 1);
    let spoiled = {
        let mut w = wire.clone();
        let at = w.len() - 2;
        w.insert(at, b' ');
        w.insert(at, b'{');
        w
    };
    for m in [&wire[..], &wire[..cut], &spoiled[..], &spoiled[..cut]] {
        let _ = CommandCodec::default().decode(m);
        let _ = AuthenticateDataCodec::default().decode(m);
        let _ = ResponseCodec::default().decode(m);
        let _ = GreetingCodec::default().decode(m);
        let _ = imap_codec::IdleDoneCodec::default().decode(m);
        for (max, end) in [(None, 0), (Some(wire.len() as u32 / 2), 0), (None, 1), (None, 2)] {
            let mut f = match max {
                Some(n) => Fragmentizer::new(n),
                None => Fragmentizer::without_max_message_size(),
            };
            for piece in m.chunks(cut.max(1)) {
                f.enqueue_bytes(piece);
                while f.progress().is_some() {
                    match end {
                        1 => f.skip_message(),
                        2 => f.poison_message(),
                        _ => {}
                    }
                }
            }
            let _ = f.decode_tag();
            let _ = f.decode_message(&CommandCodec::default());
            let _ = f.decode_message(&AuthenticateDataCodec::default());
            let _ = f.decode_message(&ResponseCodec::default());
        }
    }
}
fn no_log(ctx: &mut Ctx, a: &[u8], b: &[u8], r: &mut Rng) {
    let form = r.below(5);
    let s = r.next();
    let (n, la) = logged(|| handle_secret(a, form, &mut Rng::new(s)));
    let (_, lb) = logged(|| handle_secret(b, form, &mut Rng::new(s)));
    ctx.c("logs-compared");
    ctx.cn("log-records", n);
    ctx.check(la == lb, "what is logged depends on the secret", a, || format!("{}\nversus\n{}", cut(&la), cut(&lb)));
    // The recorder does record.
    let (n, l) = logged(|| log::trace!("probe {}", form));
    if n == 1 && l.contains("probe") {
        ctx.c("recorder-works");
    }
}
fn c19(ctx: &mut Ctx, seed: u64) {
    if cfg!(debug_assertions) {
        ctx.c("not-a-release-build");
        return;
    }
    let mut r = Rng::new(seed);
    let kind = r.below(3);
    let (a, b) = secret_pair(&mut r, kind);
    ctx.current = a.clone();
    ctx.eval(&a);
    no_log(ctx, &a, &b, &mut Rng::new(mix(seed ^ 0x106)));
    let site = r.below(8);
    match site {
        0 => {
            ctx.c("login");
            let form = r.below(3);
            let mk = |x: &[u8]| -> Option<Command<'static>> {
                let p = match form {
                    0 => AString::try_from(x.to_vec()).ok()?,
                    1 => AString::String(IString::Quoted(Quoted::try_from(x.to_vec()).ok()?)),
                    _ => AString::String(IString::Literal(Literal::try_from(x.to_vec()).ok()?)),
                };
                Some(Command::new("A", CommandBody::login("user", p).unwrap()).unwrap())
            };
            if let (Some(x), Some(y)) = (mk(&a), mk(&b)) {
                no_leak(ctx, &x, &y, &a, "LOGIN");
                no_leak(ctx, &x.body, &y.body, &a, "LOGIN");
                no_leak(ctx, &Msg::Command(x.clone()), &Msg::Command(y.clone()), &a, "LOGIN");
                let wire = Msg::Command(x.clone()).dump();
                // It is still sent and still readable, also after a trip over the wire.
                match (&x.body, CommandCodec::default().decode(&wire), CommandCodec::default().decode(&Msg::Command(y.clone()).dump())) {
                    (CommandBody::Login { password, .. }, Ok((_, d)), Ok((_, e))) => {
                        let CommandBody::Login { password: p2, .. } = &d.body else { unreachable!() };
                        ctx.check(password.declassify().as_ref() == &a[..] && p2.declassify().as_ref() == &a[..], "secret not available any more", &a, || show(&wire));
                        ctx.check((password == p2) && (a == b || x != y), "secrets compare wrongly", &a, || show(&wire));
                        no_leak(ctx, &d, &e, &a, "decoded LOGIN");
                        no_leak(ctx, &d.to_static(), &e.to_static(), &a, "decoded LOGIN");
                    }
                    _ => ctx.fail("LOGIN not readable", show(&wire), &a),
                }
            }
        }
        1 => {
            ctx.c("authenticate");
            let mk = |x: &[u8]| CommandBody::authenticate_with_ir(AuthMechanism::Plain, x.to_vec()).tag("A").unwrap();
            let (x, y) = (mk(&a), mk(&b));
            no_leak(ctx, &x, &y, &a, "AUTHENTICATE");
            let want = format!("A AUTHENTICATE PLAIN {}\r\n", b64(&a)).into_bytes();
            let wire = Msg::Command(x).dump();
            ctx.check(wire == want, "secret not sent", &a, || show(&wire));
            let wire2 = Msg::Command(y).dump();
            match (CommandCodec::default().decode(&wire), CommandCodec::default().decode(&wire2)) {
                (Ok((_, d)), Ok((_, e))) => {
                    no_leak(ctx, &d, &e, &a, "decoded AUTHENTICATE");
                    let CommandBody::Authenticate { initial_response, .. } = &d.body else { unreachable!() };
                    ctx.check(initial_response.as_ref().is_some_and(|s| s.declassify().as_ref() == &a[..]), "secret not available any more", &a, || show(&wire));
                }
                _ => ctx.fail("AUTHENTICATE not readable", show(&wire), &a),
            }
        }
        2 => {
            ctx.c("authenticate-data");
            let (x, y) = (AuthenticateData::r#continue(a.clone()), AuthenticateData::r#continue(b.clone()));
            no_leak(ctx, &x, &y, &a, "authenticate data");
            let wire = Msg::Auth(x.clone()).dump();
            ctx.check(wire == format!("{}\r\n", b64(&a)).into_bytes(), "secret not sent", &a, || show(&wire));
            let wire2 = Msg::Auth(y).dump();
            match (AuthenticateDataCodec::default().decode(&wire), AuthenticateDataCodec::default().decode(&wire2)) {
                (Ok((_, d)), Ok((_, e))) => {
                    no_leak(ctx, &d, &e, &a, "decoded authenticate data");
                    ctx.check(d == x, "secret not available any more", &a, || show(&wire));
                }
                _ => ctx.fail("authenticate data not readable", show(&wire), &a),
            }
        }
        3 => {
            ctx.c("secret-wrapper");
            no_leak(ctx, &Secret::new(a.clone()), &Secret::new(b.clone()), &a, "Secret<Vec<u8>>");
            no_leak(ctx, &Secret::from(&a[..]), &Secret::from(&b[..]), &a, "Secret<&[u8]>");
            no_leak(ctx, &Some(Secret::new(a.clone())), &Some(Secret::new(b.clone())), &a, "Option<Secret>");
            no_leak(ctx, &vec![Secret::new((a.clone(), 1))], &vec![Secret::new((b.clone(), 2))], &a, "Vec<Secret<(..)>>");
            let (s, t) = (String::from_utf8_lossy(&a).into_owned(), String::from_utf8_lossy(&b).into_owned());
            no_leak(ctx, &Secret::new(s.clone()), &Secret::new(t.clone()), s.as_bytes(), "Secret<String>");
            no_leak(ctx, &Secret::new(seed), &Secret::new(mix(seed)), &a, "Secret<u64>");
            if let (Ok(x), Ok(y)) = (Literal::try_from(a.clone()), Literal::try_from(b.clone())) {
                no_leak(ctx, &Secret::new(x), &Secret::new(y), &a, "Secret<Literal>");
            }
            let s = Secret::new(a.clone());
            ctx.check(s.declassify() == &a && s.clone() == s && (a == b) == (s == Secret::new(b.clone())), "wrapper loses or confuses the secret", &a, || "declassify/clone/eq".into());
        }
        4..=6 => {
            // The errors of the fragmentizer, which carry what was received.
            let run = |x: &[u8], ctx: &mut Ctx| -> Vec<String> {
                let body = b64(x);
                let mut out = Vec::new();
                let stream = format!("A AUTHENTICATE PLAIN {body}\r\n").into_bytes();
                match site {
                    4 => {
                        // A message that is longer than what the decoder takes: the rest is the secret.
                        ctx.c("error-remainder");
                        let mut f = Fragmentizer::without_max_message_size();
                        // The framing sees an announcement where the decoder sees text.
                        f.enqueue_bytes(format!("* OK hello {{{}}}\r\n", body.len()).as_bytes());
                        f.enqueue_bytes(body.as_bytes());
                        f.enqueue_bytes(b"\r\n");
                        while f.progress().is_some() && !f.is_message_complete() {}
                        match f.decode_message(&GreetingCodec::default()) {
                            Err(e @ DecodeMessageError::DecodingRemainder { .. }) => {
                                if let DecodeMessageError::DecodingRemainder { remainder, .. } = &e {
                                    ctx.check(remainder.declassify().starts_with(body.as_bytes()), "remainder not available", x, || show(remainder.declassify()));
                                }
                                out.push(formats(&e));
                            }
                            o => ctx.fail("expected a remainder", format!("{:?}", o.is_ok()), x),
                        }
                    }
                    5 => {
                        ctx.c("error-too-long");
                        let mut f = Fragmentizer::new(25 + (body.len() / 2) as u32);
                        f.enqueue_bytes(&stream);
                        while f.progress().is_some() && !f.is_message_complete() {}
                        match f.decode_message(&CommandCodec::default()) {
                            Err(e @ DecodeMessageError::MessageTooLong { .. }) => out.push(formats(&e)),
                            o => ctx.c(if o.is_ok() { "short-enough" } else { "other-error" }),
                        }
                    }
                    _ => {
                        ctx.c("error-poisoned");
                        let mut f = Fragmentizer::without_max_message_size();
                        f.enqueue_bytes(&stream);
                        while f.progress().is_some() && !f.is_message_complete() {}
                        match f.decode_message(&CommandCodec::default()) {
                            Ok(c) => out.push(formats(&c)),
                            Err(_) => ctx.fail("AUTHENTICATE not readable", show(&stream), x),
                        }
                        f.poison_message();
                        match f.decode_message(&CommandCodec::default()) {
                            Err(e @ DecodeMessageError::MessagePoisoned { .. }) => {
                                if let DecodeMessageError::MessagePoisoned { discarded } = &e {
                                    ctx.check(*discarded.declassify() == &stream[..], "discarded bytes not available", x, || show(discarded.declassify()));
                                }
                                out.push(formats(&e));
                            }
                            _ => ctx.fail("expected a poisoned message", "", x),
                        }
                    }
                }
                out
            };
            let (x, y) = (run(&a, ctx), run(&b, ctx));
            ctx.check(x == y, "debug output of a fragmentizer error depends on the secret", &a, || cut(&x.join("\n")));
        }
        _ => {
            // Errors of the decoders.
            ctx.c("decode-errors");
            let cutoff = r.below(60);
            let style = r.below(4);
            let run = |x: &[u8]| -> String {
                let body = b64(x);
                let mut m = match style {
                    0 => format!("A LOGIN u \"{body}").into_bytes(),
                    1 => format!("A AUTHENTICATE PLAIN {body}\r").into_bytes(),
                    2 => format!("A LOGIN u {body} junk\r\n").into_bytes(),
                    _ => format!("A LOGIN {{{}+}}\r\n{body} {{9}}\r\n", body.len()).into_bytes(),
                };
                m.truncate(m.len().max(cutoff));
                match CommandCodec::default().decode(&m) {
                    Ok((_, c)) => formats(&c),
                    Err(e) => formats(&e),
                }
            };
            let (x, y) = (run(&a), run(&b));
            ctx.check(x == y, "decoding error depends on the secret", &a, || format!("{x}\nversus\n{y}"));
        }
    }
}

// ----- C20 -----

/// Decode borrowing from a buffer, detach, destroy the buffer, compare with an independent decoding.
fn detach(ctx: &mut Ctx, kind: Kind, input: &[u8]) {
    ctx.current = input.to_vec();
    ctx.eval(input);
    let want = decode_static(kind, input);
    macro_rules! go {
        ($codec:ident, $v:ident) => {{
            let codec = $codec::default();
            let mut buf = input.to_vec();
            let mut buf2 = input.to_vec();
            let r = match codec.decode(&buf) {
                Ok((rem, m)) => {
                    let rem = rem.to_vec();
                    let before = (format!("{m:?}"), codec.encode(&m).dump());
                    let a = m.to_static();
                    let eq = a == m && imap_types::ToStatic::to_static(&m) == m;
                    let b = m.into_static();
                    Ok((rem, before, eq, a, b))
                }
                Err(e) => {
                    let d = format!("{e:?}");
                    Err((d, e.to_dec()))
                }
            };
            buf.fill(b'#');
            drop(buf);
            // A second one, whose buffer is overwritten by something else instead.
            let r2 = match codec.decode_static(&buf2) {
                Ok((rem, m)) => Ok((rem.to_vec(), m)),
                Err(e) => Err(e.to_dec()),
            };
            for (i, b) in buf2.iter_mut().enumerate() {
                *b = (i as u8).wrapping_mul(31) | 1;
            }
            drop(buf2);
            match (r, r2) {
                (Ok((rem, before, eq, a, b)), Ok((rem2, m2))) => {
                    ctx.c("accepted");
                    ctx.check(eq, "detached copy differs from the original", input, || before.0.clone());
                    for (n, x) in [("to_static", &a), ("into_static", &b), ("decode_static", &m2)] {
                        let after = (format!("{x:?}"), codec.encode(x).dump());
                        ctx.check(after == before, &format!("{n} copy changed"), input, || format!("before {} {}\nafter  {} {}", cut(&before.0), show(&before.1), cut(&after.0), show(&after.1)));
                    }
                    ctx.check(rem == rem2, "static decoding leaves another remainder", input, || format!("{} versus {}", show(&rem), show(&rem2)));
                    match &want {
                        Dec::Ok { rem: wr, msg } => {
                            ctx.check(*wr == rem, "remainder differs", input, || show(&rem));
                            ctx.same(&Msg::$v(a), msg, "detached copy differs from static decoding", input);
                        }
                        o => ctx.fail("static decoding gives another result", o.name(), input),
                    }
                }
                (Err((d, e)), Err(e2)) => {
                    ctx.c(e.name());
                    ctx.check(e == e2 && e == want, "static decoding gives another error", input, || format!("{d} versus {e2:?}"));
                }
                (a, b) => ctx.fail("static decoding gives another result", format!("borrowed ok {}, static ok {}", a.is_ok(), b.is_ok()), input),
            }
        }};
    }
    match kind {
        Kind::Greeting => go!(GreetingCodec, Greeting),
        Kind::Command => go!(CommandCodec, Command),
        Kind::Auth => go!(AuthenticateDataCodec, Auth),
        Kind::Response => go!(ResponseCodec, Response),
        Kind::Idle => {
            ctx.same(&decode(kind, input), &want, "static decoding differs", input);
        }
    }
}
fn c20(ctx: &mut Ctx, seed: u64) {
    let c = p_codec::any(seed);
    ctx.merge(&c.cov);
    let mut r = Rng::new(mix(seed ^ 20));
    let kind = c.value.kind();
    let mut w = if r.bool() { c.canon.bytes() } else { c.styled.bytes() };
    match r.below(6) {
        0 | 1 => detach(ctx, kind, &w),
        2 => {
            // The constructed value, too.
            let m = &c.value;
            let (a, b) = match m {
                Msg::Command(m) => (Msg::Command(m.to_static()), Msg::Command(m.clone().into_static())),
                Msg::Response(m) => (Msg::Response(m.to_static()), Msg::Response(m.clone().into_static())),
                Msg::Greeting(m) => (Msg::Greeting(m.to_static()), Msg::Greeting(m.clone().into_static())),
                Msg::Auth(m) => (Msg::Auth(m.to_static()), Msg::Auth(m.clone().into_static())),
                Msg::Idle(m) => (Msg::Idle(m.clone()), Msg::Idle(m.clone())),
            };
            ctx.same(&a, m, "to_static changes a constructed value", &w);
            ctx.same(&b, m, "into_static changes a constructed value", &w);
            w.extend_from_slice(b"* OK more\r\nA NOOP\r\n");
            detach(ctx, kind, &w);
        }
        3 => {
            let ends: Vec<usize> = w.windows(3).enumerate().filter(|(_, x)| *x == b"}\r\n").map(|(i, _)| i + 3).collect();
            let n = if !ends.is_empty() && r.bool() { *r.pick(&ends) } else { r.below(w.len() + 1) };
            w.truncate(n);
            if r.bool() && mutate::reannounce(&mut r, &mut w).is_some() {
                ctx.c("other-lengths");
            }
            detach(ctx, kind, &w);
        }
        _ => {
            let other = p_codec::any(mix(seed)).canon.bytes();
            let mut m = w;
            for _ in 0..r.range(1, 3) {
                mutate::edit(&mut r, &mut m, &other);
            }
            let kind = if r.chance(1, 5) { *r.pick(&KINDS) } else { kind };
            detach(ctx, kind, &m);
        }
    }
}

// ----- C22 -----

#[cfg(feature = "taggen")]
mod tags {
    use std::sync::{Arc, Barrier, Mutex};

    use imap_types::core::TagGenerator;

    use super::*;
    use crate::p_types::m_tag;

    /// Everything this process has seen.
    static SEEN: Mutex<Option<(HashSet<String>, HashSet<(u64, u64)>)>> = Mutex::new(None);

    /// Parse `<generator>.<counter>` with an optional random part.
    fn parts(t: &str) -> Option<(u64, u64, Option<&str>)> {
        let mut i = t.splitn(3, '.');
        let g = i.next()?.parse().ok()?;
        let c = i.next()?.parse().ok()?;
        Some((g, c, i.next()))
    }
    /// The tags of one generator in the order they were generated.
    fn judge(ctx: &mut Ctx, runs: Vec<Vec<String>>) {
        let mut seen = SEEN.lock().unwrap();
        let (tags, pairs) = seen.get_or_insert_with(Default::default);
        for run in runs {
            let mut prev: Option<(u64, u64)> = None;
            for t in run {
                ctx.tick();
                ctx.check(m_tag(t.as_bytes()) && Tag::validate(&t).is_ok(), "generated tag is not a valid tag", t.as_bytes(), || t.clone());
                ctx.check(tags.insert(t.clone()), "tag repeats", t.as_bytes(), || t.clone());
                let Some((g, c, random)) = parts(&t) else {
                    ctx.fail("tag does not name its generator and counter", t.clone(), t.as_bytes());
                    continue;
                };
                ctx.check(pairs.insert((g, c)), "generator and counter repeat", t.as_bytes(), || t.clone());
                if let Some((pg, pc)) = prev {
                    ctx.check(g == pg && c == pc + 1, "generator does not follow its own counter", t.as_bytes(), || format!("{t} after {pg}.{pc}"));
                }
                prev = Some((g, c));
                if cfg!(debug_assertions) {
                    ctx.check(random.is_none(), "random part in a debug build", t.as_bytes(), || t.clone());
                } else {
                    ctx.check(random.is_some_and(|r| r.len() == 8 && r.bytes().all(|b| b.is_ascii_alphanumeric())), "no random part", t.as_bytes(), || t.clone());
                }
            }
            if prev.is_some() {
                ctx.c("generators");
            }
        }
        if tags.len() > 3_000_000 {
            // Bound the memory; later repetitions of earlier ones would go unseen.
            ctx.c("history-reset");
            tags.clear();
            pairs.clear();
        }
    }
    pub fn c22(ctx: &mut Ctx, seed: u64) {
        let mut r = Rng::new(seed);
        let threads = r.range(2, 8);
        let rounds = r.range(1, 12);
        let per = r.range(1, 20);
        let mode = r.below(4);
        let barrier = Arc::new(Barrier::new(threads));
        ctx.eval(&[threads as u8, rounds as u8, per as u8, mode as u8, (seed & 0xff) as u8]);
        ctx.c(["all-create-together", "create-and-generate", "hand-over", "yielding"][mode]);
        let pool: Arc<Mutex<Vec<(TagGenerator, Vec<String>)>>> = Arc::new(Mutex::new(Vec::new()));
        let handles: Vec<_> = (0..threads)
            .map(|i| {
                let (barrier, pool) = (barrier.clone(), pool.clone());
                std::thread::spawn(move || {
                    let mut out = Vec::new();
                    let mut r = Rng::new(mix(seed ^ i as u64));
                    barrier.wait();
                    match mode {
                        0 => {
                            let mut gens: Vec<_> = (0..rounds).map(|_| TagGenerator::new()).collect();
                            barrier.wait();
                            for g in &mut gens {
                                out.push((0..per).map(|_| g.generate().as_ref().to_string()).collect::<Vec<_>>());
                            }
                        }
                        1 | 3 => {
                            for _ in 0..rounds {
                                let mut g = TagGenerator::new();
                                if mode == 3 && r.bool() {
                                    std::thread::yield_now();
                                }
                                out.push((0..per).map(|_| g.generate().as_ref().to_string()).collect());
                            }
                        }
                        _ => {
                            // Generators wander from thread to thread.
                            for _ in 0..rounds * 3 {
                                let taken = {
                                    let mut p = pool.lock().unwrap();
                                    if p.is_empty() || r.chance(1, 3) {
                                        None
                                    } else {
                                        let at = r.below(p.len());
                                        Some(p.swap_remove(at))
                                    }
                                };
                                let (mut g, mut v) = taken.unwrap_or_else(|| (TagGenerator::new(), Vec::new()));
                                for _ in 0..r.range(0, per) {
                                    v.push(g.generate().as_ref().to_string());
                                }
                                pool.lock().unwrap().push((g, v));
                            }
                        }
                    }
                    out
                })
            })
            .collect();
        let mut runs = Vec::new();
        for h in handles {
            match h.join() {
                Ok(v) => runs.extend(v),
                Err(_) => ctx.fail("generating tags panicked", "thread panicked", b""),
            }
        }
        runs.extend(pool.lock().unwrap().drain(..).map(|(_, v)| v));
        judge(ctx, runs);
    }
    /// Long life of one generator, and many generators.
    pub fn c22_fixed(ctx: &mut Ctx) {
        let mut g = TagGenerator::new();
        let n = if ctx.thorough { 2_000_000 } else { 200_000 };
        judge(ctx, vec![(0..n).map(|_| g.generate().as_ref().to_string()).collect()]);
        ctx.c("long-lived");
        let m = if ctx.thorough { 1_000_000 } else { 140_000 };
        let runs = (0..m)
            .map(|_| {
                let mut g = TagGenerator::new();
                vec![g.generate().as_ref().to_string(), g.generate().as_ref().to_string()]
            })
            .collect();
        judge(ctx, runs);
        ctx.c("many-generators");
        if !cfg!(debug_assertions) {
            // The random part: no two alike (collisions among 100 000 of 62^8 are practically excluded; two are tolerated),
            // every letter and digit occurs at every place, and another process draws others.
            let draw = || -> Vec<String> {
                let mut g = TagGenerator::new();
                (0..50_000).map(|_| g.generate().as_ref().rsplit('.').next().unwrap_or("").to_string()).collect()
            };
            let (a, b) = (draw(), draw());
            let set: HashSet<&String> = a.iter().chain(&b).collect();
            ctx.check(set.len() + 2 >= a.len() + b.len(), "random part repeats", b"", || format!("{} distinct of {}", set.len(), a.len() + b.len()));
            for place in 0..8 {
                let n = a.iter().filter_map(|s| s.as_bytes().get(place)).collect::<HashSet<_>>().len();
                ctx.check(n == 62, "random part is not random", b"", || format!("{n} different characters at place {place}"));
            }
            let exe = std::env::current_exe().unwrap();
            let other = std::process::Command::new(exe).args(["tags", "x"]).output();
            match other {
                Ok(o) if o.status.success() => {
                    let text = String::from_utf8_lossy(&o.stdout);
                    let theirs: HashSet<&str> = text.lines().collect();
                    ctx.check(theirs.len() > 900, "random part repeats", b"", || format!("{} of 1000", theirs.len()));
                    let same = a.iter().filter(|s| theirs.contains(s.as_str())).count();
                    ctx.check(same <= 2, "another process draws the same random parts", b"", || format!("{same}"));
                    ctx.c("other-process");
                }
                o => ctx.fail("harness: could not run the other process", format!("{o:?}"), b""),
            }
        }
    }
    pub fn print() {
        let mut g = TagGenerator::new();
        for _ in 0..1000 {
            println!("{}", g.generate().as_ref().rsplit('.').next().unwrap_or(""));
        }
    }
}
#[cfg(feature = "taggen")]
pub use tags::print as print_tags;

// ----- C26 -----

/// Rebuild a command through the convenience constructor for it, if there is one.
fn rebuild(b: &CommandBody<'static>) -> Option<Result<CommandBody<'static>, ()>> {
    fn e<T, E>(r: Result<T, E>) -> Result<T, ()> {
        r.map_err(|_| ())
    }
    use CommandBody as C;
    Some(match b.clone() {
        C::Authenticate { mechanism, initial_response: None } => Ok(C::authenticate(mechanism)),
        C::Authenticate { mechanism, initial_response: Some(s) } => Ok(C::authenticate_with_ir(mechanism, s.declassify().clone())),
        C::Login { username, password } => e(C::login(username, password.declassify().clone())),
        #[cfg(feature = "ext")]
        C::Select { mailbox, parameters } if parameters.is_empty() => e(C::select(mailbox)),
        #[cfg(feature = "ext")]
        C::Examine { mailbox, parameters } if parameters.is_empty() => e(C::examine(mailbox)),
        #[cfg(not(feature = "ext"))]
        C::Select { mailbox } => e(C::select(mailbox)),
        #[cfg(not(feature = "ext"))]
        C::Examine { mailbox } => e(C::examine(mailbox)),
        C::Unselect => Ok(C::unselect()),
        C::Create { mailbox } => e(C::create(mailbox)),
        C::Delete { mailbox } => e(C::delete(mailbox)),
        C::Rename { from, to } => e(C::rename(from, to)),
        C::Subscribe { mailbox } => e(C::subscribe(mailbox)),
        C::Unsubscribe { mailbox } => e(C::unsubscribe(mailbox)),
        C::List { reference, mailbox_wildcard } => e(C::list(reference, mailbox_wildcard)),
        C::Lsub { reference, mailbox_wildcard } => e(C::lsub(reference, mailbox_wildcard)),
        C::Status { mailbox, item_names } => e(C::status(mailbox, item_names)),
        C::Append { mailbox, flags, date, message: LiteralOrLiteral8::Literal(l) } => e(C::append(mailbox, flags, date, l)),
        C::Search { charset, criteria, uid } => Ok(C::search(charset, criteria, uid)),
        #[cfg(feature = "ext")]
        C::Fetch { sequence_set, macro_or_item_names, uid, modifiers } if modifiers.is_empty() => e(C::fetch(sequence_set, macro_or_item_names, uid)),
        #[cfg(not(feature = "ext"))]
        C::Fetch { sequence_set, macro_or_item_names, uid } => e(C::fetch(sequence_set, macro_or_item_names, uid)),
        #[cfg(feature = "ext")]
        C::Store { sequence_set, kind, response, flags, uid, modifiers } if modifiers.is_empty() => e(C::store(sequence_set, kind, response, flags, uid)),
        #[cfg(not(feature = "ext"))]
        C::Store { sequence_set, kind, response, flags, uid } => e(C::store(sequence_set, kind, response, flags, uid)),
        C::Copy { sequence_set, mailbox, uid } => e(C::copy(sequence_set, mailbox, uid)),
        C::Move { sequence_set, mailbox, uid } => e(C::r#move(sequence_set, mailbox, uid)),
        C::Enable { capabilities } => Ok(C::enable(capabilities).unwrap()),
        C::Compress { algorithm } => Ok(C::compress(algorithm)),
        C::GetQuota { root } => e(C::get_quota(root)),
        C::GetQuotaRoot { mailbox } => e(C::get_quota_root(mailbox)),
        C::SetQuota { root, quotas } => e(C::set_quota(root, quotas.into_iter().map(|q| QuotaSet::new(q.resource, q.limit)).collect::<Vec<_>>())),
        #[cfg(feature = "ext")]
        C::Namespace => Ok(C::namespace()),
        _ => return None,
    })
}
fn rebuild_data(d: &Data<'static>) -> Option<Result<Data<'static>, ()>> {
    Some(match d.clone() {
        Data::Capability(c) => Data::capability(c).map_err(|_| ()),
        Data::Expunge(n) => Data::expunge(n.get()).map_err(|_| ()),
        Data::Fetch { seq, items } => Data::fetch(seq.get(), items.into_inner()).map_err(|_| ()),
        Data::Quota { root, quotas } => Data::quota(root, quotas.into_inner().into_iter().map(|q| QuotaGet::new(q.resource, q.usage, q.limit)).collect::<Vec<_>>()).map_err(|_| ()),
        Data::QuotaRoot { mailbox, roots } => Data::quota_root(mailbox, roots).map_err(|_| ()),
        #[cfg(feature = "ext")]
        Data::Namespace { personal, other, shared } => {
            use imap_types::extensions::namespace::Namespace;
            let re = |v: Vec<Namespace<'static>>| {
                v.into_iter()
                    .map(|n| {
                        let mut m = Namespace::new(n.prefix, n.delimiter);
                        m.extensions = n.extensions;
                        m
                    })
                    .collect::<Vec<_>>()
            };
            Data::namespace(re(personal), re(other), re(shared)).map_err(|_| ())
        }
        _ => return None,
    })
}
/// A response code through its constructor.
fn rebuild_code(c: &Code<'static>) -> Option<Result<Code<'static>, ()>> {
    Some(match c.clone() {
        Code::BadCharset { allowed } => Ok(Code::badcharset(allowed)),
        Code::Capability(c) => Code::capability(c).map_err(|_| ()),
        Code::PermanentFlags(f) => Ok(Code::permanentflags(f)),
        Code::UidNext(n) => Code::uidnext(n.get()).map_err(|_| ()),
        Code::UidValidity(n) => Code::uidvalidity(n.get()).map_err(|_| ()),
        Code::Unseen(n) => Code::unseen(n.get()).map_err(|_| ()),
        _ => return None,
    })
}
/// The first word(s) of a command on the wire.
fn wire_name(canon: &[u8]) -> String {
    let line = canon.split(|b| *b == b'\r').next().unwrap_or(b"");
    let mut w = line.split(|b| *b == b' ').skip(1).map(|b| String::from_utf8_lossy(b).to_ascii_uppercase());
    let first = w.next().unwrap_or_default();
    if first == "UID" { w.next().unwrap_or_default() } else { first }
}
/// Is this padded or canonical base64, as the ambiguity rule means it?
pub fn base64_valid(t: &[u8]) -> bool {
    if t.len() % 4 != 0 {
        return false;
    }
    let n = t.len() - t.iter().rev().take_while(|b| **b == b'=').count().min(2);
    if t.is_empty() {
        return true;
    }
    let val = |b: u8| match b {
        b'A'..=b'Z' => Some(b - b'A'),
        b'a'..=b'z' => Some(b - b'a' + 26),
        b'0'..=b'9' => Some(b - b'0' + 52),
        b'+' => Some(62),
        b'/' => Some(63),
        _ => None,
    };
    if !t[..n].iter().all(|b| val(*b).is_some()) {
        return false;
    }
    // Unused bits of the last character must be zero.
    match t.len() - n {
        0 => true,
        1 => val(t[n - 1]).unwrap() & 3 == 0,
        _ => val(t[n - 1]).unwrap() & 15 == 0,
    }
}
/// Conversions of parts of a command.
fn small_parts(ctx: &mut Ctx, b: &CommandBody<'static>, wire: &[u8]) {
    use imap_types::fetch::MacroOrMessageDataItemNames as M;
    use imap_types::sequence::{SeqOrUid, Sequence};
    match b {
        CommandBody::Fetch { macro_or_item_names, sequence_set, .. } => {
            ctx.c("part:fetch-names");
            let again = match macro_or_item_names {
                M::Macro(m) => M::from(m.clone()),
                M::MessageDataItemNames(v) => M::from(v.clone()),
            };
            ctx.same(&again, macro_or_item_names, "fetch names from their parts", wire);
            for q in sequence_set.0.as_ref() {
                for e in match q {
                    Sequence::Single(a) => vec![a],
                    Sequence::Range(a, b) => vec![a, b],
                } {
                    let want = match e {
                        SeqOrUid::Value(n) => n.get(),
                        SeqOrUid::Asterisk => u32::MAX,
                    };
                    ctx.check(e.to_non_zero_u32().get() == want, "number of a sequence end", wire, || format!("{e:?}"));
                }
            }
        }
        CommandBody::Login { password, .. } => {
            ctx.c("part:secret");
            ctx.same(imap_types::secret::Secret::from(password.declassify().clone()).declassify(), password.declassify(), "secret from its content", wire);
        }
        #[cfg(feature = "ext")]
        CommandBody::GetMetadata { entries, .. } => {
            ctx.c("part:entry");
            for e in entries.as_ref() {
                ctx.check(e.as_ref() == e.inner().as_ref(), "entry as bytes", wire, || format!("{e:?}"));
            }
        }
        _ => {}
    }
}

fn c26(ctx: &mut Ctx, seed: u64) {
    let mut r = Rng::new(mix(seed ^ 26));
    match r.below(10) {
        0..=4 => {
            let c = cogen::case(seed, |g| g.command(None));
            let wire = c.canon.bytes();
            ctx.current = wire.clone();
            ctx.eval(&wire);
            let name = wire_name(&wire);
            ctx.check(c.value.name() == name && c.value.body.name() == name, "wrong command name", &wire, || format!("{} instead of {name}", c.value.body.name()));
            let tag = c.value.tag.as_ref().to_string();
            let a = Command::new(tag.clone(), c.value.body.clone());
            let b = c.value.body.clone().tag(tag);
            match (a, b) {
                (Ok(a), Ok(b)) => {
                    ctx.same(&a, &c.value, "Command::new builds another command", &wire);
                    ctx.same(&b, &c.value, "CommandBody::tag builds another command", &wire);
                }
                _ => ctx.fail("tag refused", "", &wire),
            }
            if let Some(v) = rebuild(&c.value.body) {
                ctx.c(c.value.body.name());
                match v {
                    Ok(v) => {
                        ctx.same(&v, &c.value.body, "constructor builds another command", &wire);
                        let w = Msg::Command(Command::new(c.value.tag.clone(), v).unwrap()).dump();
                        ctx.check(w == wire, "constructed command is written differently", &wire, || show(&w));
                    }
                    Err(()) => ctx.fail("constructor refuses legal arguments", "", &wire),
                }
            }
            small_parts(ctx, &c.value.body, &wire);
            if let CommandBody::Search { criteria, .. } = &c.value.body {
                for k in criteria.as_ref() {
                    if let SearchKey::Uid(s) = k {
                        ctx.c("SearchKey::uid");
                        ctx.same(&SearchKey::uid(s.clone()), k, "SearchKey::uid builds another key", &wire);
                    }
                }
            }
        }
        5 | 6 => {
            let c = cogen::case(seed, |g| g.data(None));
            let wire = c.canon.bytes();
            ctx.current = wire.clone();
            ctx.eval(&wire);
            if let Some(v) = rebuild_data(&c.value) {
                ctx.c("data");
                match v {
                    Ok(v) => {
                        ctx.same(&v, &c.value, "constructor builds other data", &wire);
                        let w = Msg::Response(Response::Data(v)).dump();
                        ctx.check(w == wire, "constructed data is written differently", &wire, || show(&w));
                    }
                    Err(()) => ctx.fail("constructor refuses legal arguments", "", &wire),
                }
            }
        }
        7 => {
            let c = cogen::case(seed, |g| g.status());
            let wire = c.canon.bytes();
            ctx.current = wire.clone();
            ctx.eval(&wire);
            ctx.c("status");
            let (tag, kind, code, text) = match c.value.clone() {
                Status::Untagged(b) => (None, Some(b.kind), b.code, b.text),
                Status::Tagged(t) => (Some(t.tag), Some(t.body.kind), t.body.code, t.body.text),
                Status::Bye(b) => (None, None, b.code, b.text),
            };
            ctx.check(c.value.tag() == tag.as_ref() && c.value.code() == code.as_ref() && c.value.text() == &text, "accessor gives another part", &wire, || format!("{:?}", c.value));
            let t = text.as_ref().to_string();
            let made = match kind {
                None => vec![Status::bye(code.clone(), t)],
                Some(k) => vec![
                    Status::new(tag.clone(), k, code.clone(), t.clone()),
                    match k {
                        StatusKind::Ok => Status::ok(tag, code.clone(), t),
                        StatusKind::No => Status::no(tag, code.clone(), t),
                        StatusKind::Bad => Status::bad(tag, code.clone(), t),
                    },
                ],
            };
            for m in made {
                match m {
                    Ok(m) => {
                        ctx.same(&m, &c.value, "constructor builds another status", &wire);
                    }
                    Err(e) => ctx.fail("constructor refuses legal arguments", format!("{e:?}"), &wire),
                }
            }
            if let Some((code, v)) = code.as_ref().and_then(|c| rebuild_code(c).map(|v| (c, v))) {
                ctx.c("code");
                match v {
                    Ok(v) => {
                        ctx.same(&v, code, "constructor builds another code", &wire);
                    }
                    Err(()) => ctx.fail("constructor refuses legal arguments", "", &wire),
                }
            }
        }
        8 => {
            let c = cogen::case(seed, |g| g.greeting());
            let wire = c.canon.bytes();
            ctx.current = wire.clone();
            ctx.eval(&wire);
            ctx.c("greeting");
            let t = c.value.text.as_ref().to_string();
            let code = c.value.code.clone();
            let made = [
                Greeting::new(c.value.kind, code.clone(), &t),
                match c.value.kind {
                    GreetingKind::Ok => Greeting::ok(code, &t),
                    GreetingKind::PreAuth => Greeting::preauth(code, &t),
                    GreetingKind::Bye => Greeting::bye(code, &t),
                },
            ];
            for m in made {
                match m {
                    Ok(m) => {
                        ctx.same(&m, &c.value, "constructor builds another greeting", &wire);
                    }
                    Err(e) => ctx.fail("constructor refuses legal arguments", format!("{e:?}"), &wire),
                }
            }
        }
        _ => {
            // Continuation requests and the rest.
            let code = if r.bool() { Some(Code::Alert) } else { None };
            let mut t = content(&mut r);
            if r.bool() {
                // Something near base64.
                let n = r.below(12);
                let d: Vec<u8> = (0..n).map(|_| r.below(256) as u8).collect();
                t = b64(&d).into_bytes();
                if r.chance(1, 3) && !t.is_empty() {
                    let at = r.below(t.len());
                    t[at] = *r.pick(b"=AZaz09+/-_ !\\[");
                }
                if r.chance(1, 5) {
                    t.push(*r.pick(b"=A "));
                }
            }
            ctx.current = t.clone();
            ctx.eval(&t);
            let legal = crate::p_types::m_text(&t);
            let ambiguous = code.is_none() && (t.first() == Some(&b'[') || base64_valid(&t));
            let got = CommandContinuationRequest::basic(code.clone(), t.clone());
            ctx.c(if !legal { "continue-illegal" } else if ambiguous { "continue-ambiguous" } else { "continue-legal" });
            ctx.check(got.is_ok() == (legal && !ambiguous), "continuation request accepted or refused wrongly", &t, || format!("code {code:?}: {got:?}, legal {legal}, ambiguous {ambiguous}"));
            if let Ok(CommandContinuationRequest::Basic(b)) = &got {
                ctx.check(b.code() == code.as_ref() && b.text().as_ref().as_bytes() == &t[..], "accessor gives another part", &t, || format!("{b:?}"));
            }
            let b = CommandContinuationRequest::base64(t.clone());
            ctx.check(b == CommandContinuationRequest::Base64(t.clone().into()), "base64 builds another request", &t, || format!("{b:?}"));
            match AuthenticateData::r#continue(t.clone()) {
                AuthenticateData::Continue(s) => {
                    ctx.check(s.declassify().as_ref() == &t[..], "continue builds other data", &t, || show(s.declassify()));
                }
                AuthenticateData::Cancel => ctx.fail("continue builds a cancel", "", &t),
            }
            // Zero is no message number, UID or validity.
            let zero = [Code::uidnext(0).is_err(), Code::uidvalidity(0).is_err(), Code::unseen(0).is_err(), Data::expunge(0).is_err(), Data::fetch(0u32, vec![MessageDataItem::Rfc822Size(1)]).is_err()];
            ctx.check(zero.iter().all(|z| *z), "zero accepted", b"0", || format!("{zero:?}"));
            ctx.check(Data::fetch(1u32, Vec::<MessageDataItem>::new()).is_err() && Data::capability(Vec::<Capability>::new()).is_err() && Code::capability(Vec::<Capability>::new()).is_err() && CommandBody::enable(Vec::<imap_types::extensions::enable::CapabilityEnable>::new()).is_err(), "empty list accepted", b"", || "".into());
            // Macros stand for the items of RFC 3501 section 6.4.5.
            use MessageDataItemName as N;
            let fast = vec![N::Flags, N::InternalDate, N::Rfc822Size];
            let mut all = fast.clone();
            all.push(N::Envelope);
            let mut full = all.clone();
            full.push(N::Body);
            for (m, want) in [(Macro::Fast, fast), (Macro::All, all), (Macro::Full, full)] {
                ctx.same(&m.expand(), &want, "macro expands to other items", b"");
            }
        }
    }
    let _ = G::COMMANDS;
}
