//! C11 - C13: the fragmentizer against a reference model of IMAP framing.
use bounded_static::IntoBoundedStatic;
use imap_codec::{
    AuthenticateDataCodec, CommandCodec, GreetingCodec, IdleDoneCodec, ResponseCodec,
    decode::Decoder,
    fragmentizer::{DecodeMessageError, FragmentInfo, Fragmentizer, LineEnding},
};
use imap_types::{core::LiteralMode, secret::Secret};

use crate::{
    Prop, alloc,
    cogen::Case,
    ctx::Ctx,
    msg::{Codes, Dec, KINDS, Kind, Msg, decode},
    mutate, p_codec,
    rng::Rng,
    wire::{Seg, show},
};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C11", fixed: Some(c11_fixed), case: c11, quick: 700_000, thorough: 20_000_000 },
        Prop { id: "C12", fixed: Some(c12_fixed), case: c12, quick: 600_000, thorough: 16_000_000 },
        Prop { id: "C13", fixed: None, case: c13, quick: 150_000, thorough: 4_000_000 },
    ]
}

// ----- reference model -----

#[derive(Clone, Debug, PartialEq)]
pub enum F {
    Line { start: usize, end: usize, ann: Option<(u32, bool)>, crlf: bool },
    Lit { start: usize, end: usize },
}
impl From<FragmentInfo> for F {
    fn from(f: FragmentInfo) -> F {
        match f {
            FragmentInfo::Line { start, end, announcement, ending } => F::Line {
                start,
                end,
                ann: announcement.map(|a| (a.length, a.mode == LiteralMode::NonSync)),
                crlf: ending == LineEnding::CrLf,
            },
            FragmentInfo::Literal { start, end } => F::Lit { start, end },
        }
    }
}

/// What the end of a line (without its line end) announces: `{` digits [`+`] `}`.
pub fn announcement(line: &[u8]) -> Option<(u32, bool)> {
    let body = line.strip_suffix(b"}")?;
    let (body, plus) = match body.strip_suffix(b"+") {
        Some(b) => (b, true),
        None => (body, false),
    };
    let digits = body.iter().rev().take_while(|b| b.is_ascii_digit()).count();
    if digits == 0 || body.len() == digits || body[body.len() - digits - 1] != b'{' {
        return None;
    }
    std::str::from_utf8(&body[body.len() - digits..]).unwrap().parse::<u32>().ok().map(|n| (n, plus))
}

/// Framing over the whole stream received so far, with the sizes a real implementation has to respect.
pub struct Model {
    all: Vec<u8>,
    /// Everything before this offset was parsed.
    consumed: usize,
    /// Start of the fragment in progress.
    at: usize,
    msg: usize,
    literal: Option<u32>,
    complete: bool,
    max: Option<u32>,
    poisoned: bool,
    exceeded: bool,
}
impl Model {
    pub fn new(max: Option<u32>) -> Model {
        Model { all: vec![], consumed: 0, at: 0, msg: 0, literal: None, complete: false, max, poisoned: false, exceeded: false }
    }
    pub fn progress(&mut self) -> Option<F> {
        if self.complete {
            self.complete = false;
            self.poisoned = false;
            self.exceeded = false;
            self.msg = self.at;
        }
        let rest = &self.all[self.at..];
        let end = match self.literal {
            Some(n) => (rest.len() >= n as usize).then_some(self.at + n as usize),
            None => rest.iter().position(|b| *b == b'\n').map(|i| self.at + i + 1),
        };
        self.consumed = end.unwrap_or(self.all.len());
        if self.max.is_some_and(|m| self.consumed - self.msg > m as usize) {
            self.exceeded = true;
        }
        let end = end?;
        let (start, stop) = (self.at - self.msg, end - self.msg);
        let f = if self.literal.take().is_some() {
            F::Lit { start, end: stop }
        } else {
            let line = &self.all[self.at..end - 1];
            let (line, crlf) = match line.strip_suffix(b"\r") {
                Some(l) => (l, true),
                None => (line, false),
            };
            let ann = announcement(line);
            self.literal = ann.map(|(n, _)| n);
            self.complete = ann.is_none();
            F::Line { start, end: stop, ann, crlf }
        };
        self.at = end;
        Some(f)
    }
    pub fn skip(&mut self) {
        self.complete = false;
        self.poisoned = false;
        self.exceeded = false;
        self.literal = None;
        self.at = self.consumed;
        self.msg = self.consumed;
    }
    pub fn message(&self) -> &[u8] {
        let m = &self.all[self.msg..self.consumed];
        &m[..m.len().min(self.max.unwrap_or(u32::MAX) as usize)]
    }
    pub fn bytes(&self, f: &F) -> &[u8] {
        let m = self.message();
        let (s, e) = match f {
            F::Line { start, end, .. } | F::Lit { start, end } => (*start, *end),
        };
        &m[s.min(m.len())..e.min(m.len())]
    }
    pub fn tag(&self) -> Option<Vec<u8>> {
        let m = self.message();
        let sp = m.iter().position(|b| *b == b' ')?;
        let t = &m[..sp];
        (!t.is_empty() && t.iter().all(|b| is_tag_char(*b))).then(|| t.to_vec())
    }
}
/// ASTRING-CHAR except `+`.
pub fn is_tag_char(b: u8) -> bool {
    b > 0x20 && b < 0x7f && !b"(){%*\"\\+".contains(&b)
}

fn compare(ctx: &mut Ctx, fr: &Fragmentizer, m: &Model, got: Option<(FragmentInfo, F)>, step: &str) -> bool {
    let all = &m.all;
    let mut ok = true;
    if let Some((info, f)) = &got {
        let b = fr.fragment_bytes(*info);
        let (F::Line { start, end, .. } | F::Lit { start, end }) = f;
        ok &= ctx.check(info.range() == (*start..*end), "fragment range differs", all, || format!("{step}: {f:?}: got {:?}", info.range()));
        ok &= ctx.check(b == m.bytes(f), "fragment bytes differ", all, || format!("{step}: {f:?}: got {} want {}", show(b), show(m.bytes(f))));
    }
    ok &= ctx.check(fr.message_bytes() == m.message(), "message bytes differ", all, || {
        format!("{step}: got {} want {} (consumed {})", show(fr.message_bytes()), show(m.message()), m.consumed)
    });
    ok &= ctx.check(fr.is_message_complete() == m.complete, "message completeness differs", all, || format!("{step}: got {}", fr.is_message_complete()));
    ok &= ctx.check(fr.is_max_message_size_exceeded() == m.exceeded, "size verdict differs", all, || {
        format!("{step}: got {} want {}; message of {} bytes, max {:?}", fr.is_max_message_size_exceeded(), m.exceeded, m.consumed - m.msg, m.max)
    });
    ok &= ctx.check(fr.is_message_poisoned() == m.poisoned, "poison verdict differs", all, || format!("{step}: got {}", fr.is_message_poisoned()));
    let t = fr.decode_tag().map(|t| t.as_ref().as_bytes().to_vec());
    ok &= ctx.check(t == m.tag(), "tag differs", all, || format!("{step}: got {:?} want {:?} in {}", t, m.tag(), show(m.message())));
    ok
}

fn step(ctx: &mut Ctx, fr: &mut Fragmentizer, m: &mut Model) -> Option<Option<F>> {
    let g = fr.progress();
    let want = m.progress();
    let got = g.map(F::from);
    if got != want {
        ctx.fail("fragment differs from the framing rules", format!("got {got:?} want {want:?} at {} message from {}", m.consumed, m.msg), &m.all);
        return None;
    }
    match &want {
        Some(F::Line { ann: Some(_), .. }) => ctx.c("announcing-lines"),
        Some(F::Line { crlf: true, .. }) => ctx.c("crlf-lines"),
        Some(F::Line { .. }) => ctx.c("lf-lines"),
        Some(F::Lit { .. }) => ctx.c("literals"),
        None => ctx.c("need-more"),
    }
    if !compare(ctx, fr, m, g.zip(want.clone()), "progress") {
        return None;
    }
    Some(want)
}

/// A byte stream: encoded messages, mutated messages and raw framing noise.
fn stream(r: &mut Rng, seed: u64) -> Vec<u8> {
    let mut s = Vec::new();
    let n = r.range(1, 6);
    for i in 0..n {
        match r.below(6) {
            0 => s.extend_from_slice(&p_codec::any(seed.wrapping_add(i as u64 * 77)).canon.bytes()),
            1 => {
                let mut w = p_codec::any(seed.wrapping_add(i as u64 * 77)).styled.bytes();
                for _ in 0..r.range(1, 3) {
                    mutate::edit(r, &mut w, b"{3}\r\nabc {1+}\r\n");
                }
                s.extend_from_slice(&w);
            }
            2 => {
                // Announcement soup.
                for _ in 0..r.range(1, 30) {
                    s.push(*r.pick(b"{}{}+0123459\r\n\r\n a"));
                }
            }
            3 => {
                // Well formed framing with arbitrary content.
                for _ in 0..r.range(0, 4) {
                    let k = r.below(12);
                    let lit: Vec<u8> = (0..k).map(|_| *r.pick(b"a\r\n{}1 \0\xff")).collect();
                    let pre: Vec<u8> = (0..r.below(6)).map(|_| *r.pick(b"ab {}+1\r")).collect();
                    s.extend_from_slice(&pre);
                    let zeros = if r.chance(1, 6) { r.below(14) } else { 0 };
                    s.extend_from_slice(format!("{{{}{}{}}}{}", "0".repeat(zeros), k, if r.bool() { "+" } else { "" }, if r.chance(3, 4) { "\r\n" } else { "\n" }).as_bytes());
                    s.extend_from_slice(&lit);
                }
                s.extend_from_slice(*r.pick(&[&b"end\r\n"[..], b"\r\n", b"\n", b"x{\r\n", b"x}\r\n", b"{1} \r\n", b"{1}\r\r\n", b"{1+}+\r\n", b"{1++}\r\n", b"{+}\r\n", b"{}\r\n", b"{-1}\n"]));
            }
            4 => {
                // Edges of the number range.
                s.extend_from_slice(
                    format!(
                        "a {{{}{}}}\r\n",
                        r.pick(&["4294967296", "4294967295", "4294967294", "42949672950", "99999999999999999999", "00000000000000000000", "0000000000000000000002", "18446744073709551617", "4294967297", "6442450944"]),
                        r.pick(&["", "+", "++", " "])
                    )
                    .as_bytes(),
                );
                s.extend_from_slice(b"ab\r\ncd\r\n");
            }
            _ => {
                for _ in 0..r.range(1, 40) {
                    s.push(r.below(256) as u8);
                }
                s.extend_from_slice(b"\n");
            }
        }
    }
    if r.chance(1, 400) {
        // A large literal.
        let n = r.range(4000, 200_000);
        s.extend_from_slice(format!("t APPEND x {{{n}}}\r\n").as_bytes());
        s.extend((0..n).map(|i| (i % 251) as u8));
        s.extend_from_slice(b"\r\nnext\r\n");
    }
    s
}

fn chunk(r: &mut Rng, style: usize, left: usize) -> usize {
    let n = match style {
        0 => 1,
        1 => r.range(0, 3),
        2 => r.range(0, 20),
        3 => r.range(1, 200),
        _ => left,
    };
    n.min(left).max((left > 4096 && style < 2) as usize * 97.min(left))
}

fn c11(ctx: &mut Ctx, seed: u64) {
    let mut r = Rng::new(seed ^ 0x6672);
    let s = stream(&mut r, seed);
    ctx.current = s.clone();
    ctx.eval(&s);
    let mut cat = None;
    for pass in 0..2 {
        let style = if pass == 0 { r.below(5) } else { r.below(4) };
        let (mut fr, max) = if r.bool() { (Fragmentizer::without_max_message_size(), None) } else { (Fragmentizer::new(u32::MAX), Some(u32::MAX)) };
        let mut m = Model::new(max);
        let mut i = 0;
        let mut frags = Vec::new();
        let mut bytes = Vec::new();
        loop {
            // Poll before anything was received, between chunks, or let several chunks queue up.
            let polls = match r.below(4) {
                0 => 0,
                1 => 1,
                _ => usize::MAX,
            };
            let mut k = 0;
            while k < polls || i == s.len() {
                k += 1;
                let Some(f) = step(ctx, &mut fr, &mut m) else { return };
                match f {
                    Some(f) => {
                        bytes.extend_from_slice(m.bytes(&f));
                        frags.push(f);
                    }
                    None => break,
                }
            }
            if i == s.len() {
                break;
            }
            let n = chunk(&mut r, style, s.len() - i);
            fr.enqueue_bytes(&s[i..i + n]);
            m.all.extend_from_slice(&s[i..i + n]);
            i += n;
            ctx.c("chunks");
            ctx.check(fr.is_message_complete() == m.complete && fr.message_bytes() == m.message(), "enqueueing changes the message", &s, || "".into());
        }
        // Nothing lost, duplicated or reordered: the fragments are a prefix of the stream.
        ctx.check(s.starts_with(&bytes), "fragments do not concatenate to the stream", &s, || show(&bytes));
        match &cat {
            None => cat = Some((frags, bytes)),
            Some(c) => {
                ctx.check(c.0 == frags && c.1 == bytes, "chunking changes the fragments", &s, || format!("{:?}\n{:?}", c.0, frags));
            }
        }
    }
}

/// Every cut position of a set of streams, every two-cut chunking of short ones.
fn c11_fixed(ctx: &mut Ctx) {
    let streams: &[&[u8]] = &[
        b"a {2}\r\nxy b\r\n", b"a {2+}\r\n\r\n {0}\r\n\r\nn\n", b"{10}\r\n0123456789\r\n", b"{1}\n\n\n", b"{1}\r\r\n{1}\r\n{\r\n", b"\r\n\r\n\n\r\r\n", b"{4294967296}\r\n{0}\r\n\r\n",
        b"{0}\r\n{0+}\r\n\r\n{0}\r\n", b"{3}\r\n{1}\r\n\r\nb\r\n", b"{{2}\r\n{1}}\r\n", b"x {12{2}\r\nab\r\n", b"{2+}{3}\r\nabc\r\n", b"{2}+\r\nabc\r\n", b"{2 }\r\nabc\r\n",
    ];
    for s in streams {
        for a in 0..=s.len() {
            for b in a..=s.len() {
                for poll in [true, false] {
                    let mut fr = Fragmentizer::without_max_message_size();
                    let mut m = Model::new(None);
                    ctx.current = s.to_vec();
                    for part in [&s[..a], &s[a..b], &s[b..]] {
                        fr.enqueue_bytes(part);
                        m.all.extend_from_slice(part);
                        while poll {
                            match step(ctx, &mut fr, &mut m) {
                                Some(Some(_)) => {}
                                Some(None) => break,
                                None => return,
                            }
                        }
                    }
                    loop {
                        match step(ctx, &mut fr, &mut m) {
                            Some(Some(_)) => {}
                            Some(None) => break,
                            None => return,
                        }
                    }
                    ctx.tick();
                    ctx.c("enumerated-chunkings");
                }
            }
        }
    }
}

// ----- C12 -----

#[derive(Debug, PartialEq)]
pub enum Out {
    Dec(Dec),
    TooLong(Vec<u8>),
    Poisoned(Vec<u8>),
}

pub fn decode_message(fr: &Fragmentizer, kind: Kind) -> Out {
    macro_rules! go {
        ($codec:ident, $v:ident) => {
            match fr.decode_message(&$codec::default()) {
                Ok(m) => Out::Dec(Dec::Ok { rem: vec![], msg: Msg::$v(m.into_static()) }),
                Err(DecodeMessageError::DecodingFailure(e)) => Out::Dec(e.to_dec()),
                Err(DecodeMessageError::DecodingRemainder { message, remainder }) => {
                    // An empty remainder is no remainder.
                    if remainder.declassify().is_empty() {
                        return Out::Dec(Dec::Incomplete);
                    }
                    Out::Dec(Dec::Ok { rem: remainder.declassify().to_vec(), msg: Msg::$v(message.into_static()) })
                }
                Err(DecodeMessageError::MessageTooLong { initial }) => Out::TooLong(initial.declassify().to_vec()),
                Err(DecodeMessageError::MessagePoisoned { discarded }) => Out::Poisoned(discarded.declassify().to_vec()),
            }
        };
    }
    match kind {
        Kind::Greeting => go!(GreetingCodec, Greeting),
        Kind::Command => go!(CommandCodec, Command),
        Kind::Auth => go!(AuthenticateDataCodec, Auth),
        Kind::Response => go!(ResponseCodec, Response),
        Kind::Idle => match fr.decode_message(&IdleDoneCodec::default()) {
            Ok(m) => Out::Dec(Dec::Ok { rem: vec![], msg: Msg::Idle(m) }),
            Err(DecodeMessageError::DecodingFailure(e)) => Out::Dec(e.to_dec()),
            Err(DecodeMessageError::DecodingRemainder { message, remainder }) => Out::Dec(Dec::Ok { rem: remainder.declassify().to_vec(), msg: Msg::Idle(message) }),
            Err(DecodeMessageError::MessageTooLong { initial }) => Out::TooLong(initial.declassify().to_vec()),
            Err(DecodeMessageError::MessagePoisoned { discarded }) => Out::Poisoned(discarded.declassify().to_vec()),
        },
    }
}
fn _uses(_: Secret<()>, _: &dyn Fn(&IdleDoneCodec, &[u8])) {
    let _ = <IdleDoneCodec as Decoder>::decode;
}

fn decode_both(ctx: &mut Ctx, r: &mut Rng, fr: &Fragmentizer, m: &Model) {
    let kind = *r.pick(&KINDS);
    let got = decode_message(fr, kind);
    let want = if m.exceeded {
        ctx.c("decode-too-long");
        Out::TooLong(m.message().to_vec())
    } else if m.poisoned {
        ctx.c("decode-poisoned");
        Out::Poisoned(m.message().to_vec())
    } else {
        let d = decode(kind, m.message());
        match &d {
            Dec::Ok { rem, .. } if rem.is_empty() => ctx.c("decode-ok"),
            Dec::Ok { .. } => ctx.c("decode-remainder"),
            _ => ctx.c("decode-failure"),
        }
        Out::Dec(d)
    };
    ctx.check(got == want, "decoding a framed message differs", &m.all, || format!("{kind:?} of {}: got {got:?} want {want:?}", show(m.message())));
}

fn c12(ctx: &mut Ctx, seed: u64) {
    let mut r = Rng::new(seed ^ 0x6d61);
    let mut s = stream(&mut r, seed);
    for k in 0..r.below(4) as u64 {
        // Messages that are decodable with one of the codecs.
        let w = p_codec::any(seed.wrapping_mul(31).wrapping_add(k)).canon.bytes();
        s.extend_from_slice(&w);
        if r.chance(1, 8) {
            // Remainder within one line cannot come from the encoder; an LF is kept by the framing.
            let n = s.len();
            s.truncate(n - 2);
            s.extend_from_slice(b"\r\r\n");
        }
    }
    // A limit at, just below or just above the size of some message, or an arbitrary one.
    let sizes = {
        let mut m = Model::new(None);
        m.all = s.clone();
        let mut v = vec![];
        while m.progress().is_some() {
            if m.complete {
                v.push((m.consumed - m.msg) as u32);
            }
        }
        v
    };
    let max = match r.below(8) {
        0 => None,
        1 => Some(r.below(40) as u32),
        2 => Some(r.below(2) as u32),
        3..=6 if !sizes.is_empty() => Some((*r.pick(&sizes) + r.below(3) as u32).saturating_sub(1)),
        _ => Some(1 + r.below(2000) as u32),
    };
    ctx.current = s.clone();
    ctx.eval(&[&s[..], &max.unwrap_or(u32::MAX).to_le_bytes()].concat());
    let mut fr = max.map(Fragmentizer::new).unwrap_or_else(Fragmentizer::without_max_message_size);
    let mut m = Model::new(max);
    let style = r.below(5);
    let hostile = r.chance(2, 3);
    let mut i = 0;
    let mut done = false;
    while !done {
        if r.chance(1, 20) {
            // Clones are independent.
            fr = fr.clone();
        }
        if i < s.len() && r.chance(2, 3) {
            let n = chunk(&mut r, style, s.len() - i);
            fr.enqueue_bytes(&s[i..i + n]);
            m.all.extend_from_slice(&s[i..i + n]);
            i += n;
        }
        let polls = if i == s.len() { usize::MAX } else { r.below(4) };
        let mut k = 0;
        while k < polls {
            k += 1;
            let Some(f) = step(ctx, &mut fr, &mut m) else { return };
            if max.is_some_and(|x| fr.message_bytes().len() > x as usize) {
                ctx.fail("more than the maximum is buffered", format!("{} bytes, max {max:?}", fr.message_bytes().len()), &s);
            }
            if m.complete || r.chance(1, 6) {
                decode_both(ctx, &mut r, &fr, &m);
            }
            if hostile && r.chance(1, 8) {
                ctx.c("poison");
                fr.poison_message();
                m.poisoned = true;
                if !compare(ctx, &fr, &m, None, "poison") {
                    return;
                }
                decode_both(ctx, &mut r, &fr, &m);
            }
            if hostile && r.chance(1, 12) {
                ctx.c("skip");
                fr.skip_message();
                m.skip();
                if !compare(ctx, &fr, &m, None, "skip") {
                    return;
                }
                if r.bool() {
                    decode_both(ctx, &mut r, &fr, &m);
                }
            }
            if m.exceeded {
                ctx.c("exceeded-states");
            }
            if f.is_none() {
                done = i == s.len();
                break;
            }
        }
    }
}

/// Memory: however much is sent, only the limit is kept.
fn c12_fixed(ctx: &mut Ctx) {
    for max in [0u32, 1, 10, 100, 1000, 10_000] {
        for shape in 0..3 {
            let mut fr = Fragmentizer::new(max);
            let (_, u) = alloc::measure(|| {
                let total = 4_000_000usize;
                let block = vec![b'x'; 512];
                match shape {
                    0 => fr.enqueue_bytes(format!("a {{{total}}}\r\n").as_bytes()),
                    1 => fr.enqueue_bytes(b"a "),
                    _ => {}
                }
                let mut sent = 0;
                while sent < total {
                    if shape == 2 {
                        fr.enqueue_bytes(b"a {5000}\r\n");
                        for _ in 0..10 {
                            fr.enqueue_bytes(&block[..500]);
                            while fr.progress().is_some() {}
                            sent += 500;
                        }
                        fr.enqueue_bytes(b" ");
                    } else {
                        fr.enqueue_bytes(&block);
                        while fr.progress().is_some() {}
                        sent += block.len();
                    }
                }
            });
            ctx.eval(format!("memory {max} {shape}").as_bytes());
            ctx.c("memory-runs");
            let bound = 64_000 + 8 * max as u64;
            ctx.check(u.peak <= bound, "fragmentizer keeps more than the maximum", b"", || format!("max {max} shape {shape}: peak {} bytes, bound {bound}", u.peak));
            ctx.check(fr.message_bytes().len() <= max as usize, "more than the maximum is buffered", b"", || format!("{}", fr.message_bytes().len()));
            ctx.check(fr.is_max_message_size_exceeded(), "exceeding is not reported", b"", String::new);
        }
    }
    // Nothing of earlier messages is kept, however many there were.
    for max in [None, Some(100u32), Some(3000)] {
        for (n, msg) in [(100_000usize, "a NOOP\r\n".to_string()), (3000, format!("a {{2000}}\r\n{}\r\n", "x".repeat(2000))), (3000, format!("{}\r\n", "y".repeat(2000))), (200_000, "\n".to_string())] {
            for how in 0..3 {
                let mut fr = max.map(Fragmentizer::new).unwrap_or_else(Fragmentizer::without_max_message_size);
                let mut seen = 0usize;
                let (_, u) = alloc::measure(|| {
                    for i in 0..n {
                        fr.enqueue_bytes(msg.as_bytes());
                        if how == 1 && i % 7 == 0 {
                            fr.poison_message();
                        }
                        while fr.progress().is_some() {
                            seen += fr.is_message_complete() as usize;
                            if how == 2 && fr.is_message_complete() {
                                let _ = fr.decode_message(&CommandCodec::default()).is_ok();
                            }
                        }
                    }
                });
                ctx.eval(format!("growth {max:?} {n} {how}").as_bytes());
                ctx.c("growth-runs");
                ctx.check(seen == n, "messages lost in a long stream", b"", || format!("{seen} of {n}"));
                let bound = 64_000 + 8 * max.unwrap_or(3000) as u64;
                ctx.check(u.peak <= bound, "memory grows with the number of messages", b"", || format!("max {max:?}, {n} messages of {} bytes: peak {} bytes, bound {bound}", msg.len(), u.peak));
            }
        }
    }
    // Recovery after a too long message, at every size around the limit.
    for max in 6u32..40 {
        for len in 0..50usize {
            let first = format!("a {{{len}}}\r\n{}\r\n", "x".repeat(len));
            let mut fr = Fragmentizer::new(max);
            fr.enqueue_bytes(first.as_bytes());
            fr.enqueue_bytes(b"\r\n");
            let mut m = Model::new(Some(max));
            m.all = [first.as_bytes(), b"\r\n"].concat();
            loop {
                match step(ctx, &mut fr, &mut m) {
                    None => return,
                    Some(None) => break,
                    Some(Some(_)) => {}
                }
            }
            ctx.tick();
        }
    }
}

// ----- C13 -----

/// Does some line of the message look like an announcement without being one?
pub fn ambiguous(c: &Case<Msg>) -> bool {
    let w = c.canon.bytes();
    let mut m = Model::new(None);
    m.all = w.clone();
    let want = c.canon.segs.iter().filter(|s| matches!(s, Seg::Lit { .. })).count();
    let mut lits = 0;
    while let Some(f) = m.progress() {
        lits += matches!(f, F::Lit { .. }) as usize;
        if m.complete {
            return !(m.consumed == w.len() && lits == want);
        }
    }
    true
}

fn c13(ctx: &mut Ctx, seed: u64) {
    let mut r = Rng::new(seed ^ 0x6532);
    let client = r.bool();
    let n = r.range(1, 8);
    let mut msgs = Vec::new();
    let mut s = Vec::new();
    for i in 0..n as u64 {
        let sd = seed.wrapping_add(i.wrapping_mul(0x51_7cc1));
        let c = if client { p_codec::client(sd) } else { p_codec::server(sd) };
        let text = matches!(&c.value, Msg::Greeting(_)) || matches!(&c.value, Msg::Response(x) if !matches!(x, imap_types::response::Response::Data(_)));
        if text && ambiguous(&c) {
            ctx.c("text-shaped-like-an-announcement");
            continue;
        }
        ctx.merge(&c.cov);
        s.extend_from_slice(&c.value.dump());
        msgs.push(c);
    }
    if msgs.is_empty() {
        ctx.tick();
        return;
    }
    ctx.current = s.clone();
    ctx.eval(&s);
    let longest = msgs.iter().map(|c| c.canon.bytes().len()).max().unwrap();
    let mut fr = match r.below(3) {
        0 => Fragmentizer::without_max_message_size(),
        1 => Fragmentizer::new(longest as u32),
        _ => Fragmentizer::new(1 << 20),
    };
    let style = r.below(5);
    let (mut i, mut k) = (0, 0);
    loop {
        while let Some(f) = fr.progress() {
            let Some(want) = msgs.get(k) else {
                ctx.fail("more messages than were sent", format!("{f:?}"), &s);
                return;
            };
            if let Msg::Command(cmd) = &want.value {
                ctx.c("early-tags");
                let t = fr.decode_tag();
                ctx.check(t.as_ref() == Some(&cmd.tag), "early tag is wrong", &s, || format!("got {t:?} want {:?}", cmd.tag));
            }
            if fr.is_message_complete() {
                let got = decode_message(&fr, want.value.kind());
                match got {
                    Out::Dec(Dec::Ok { rem, msg }) if rem.is_empty() => {
                        if !ctx.same(&msg, &want.normed, "message changes on the way", &s) {
                            return;
                        }
                        ctx.c("messages-delivered");
                    }
                    other => {
                        ctx.fail("message is not delivered", format!("message {k}: {other:?}, sent {:?}", want.value), &s);
                        return;
                    }
                }
                k += 1;
            }
        }
        if i == s.len() {
            break;
        }
        let c = chunk(&mut r, style, s.len() - i);
        fr.enqueue_bytes(&s[i..i + c]);
        i += c;
    }
    ctx.check(k == msgs.len(), "fewer messages than were sent", &s, || format!("{k} of {}", msgs.len()));
    ctx.check(fr.message_bytes().is_empty() || fr.is_message_complete(), "bytes left over", &s, || show(fr.message_bytes()));
}
