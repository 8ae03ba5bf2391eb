//! C01: no crash, no hang, no ballooning on untrusted bytes.
use imap_codec::{AuthenticateDataCodec, CommandCodec, GreetingCodec, IdleDoneCodec, ResponseCodec, decode::Decoder, fragmentizer::Fragmentizer};

use crate::{
    Prop, alloc,
    ctx::Ctx,
    flat,
    msg::{Dec, KINDS, Kind, decode, decode_static},
    mutate::{self, DICT},
    p_codec,
    rng::Rng,
    wire::show,
};

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C01", fixed: Some(fixed), case, quick: 900_000, thorough: 30_000_000 }]
}

/// Decode without keeping anything; what remains is what the decoder itself needs.
fn raw(kind: Kind, b: &[u8]) -> &'static str {
    macro_rules! go {
        ($c:ident) => {
            match $c::default().decode(b) {
                Ok(_) => "accepted",
                Err(_) => "rejected-or-incomplete",
            }
        };
    }
    match kind {
        Kind::Greeting => go!(GreetingCodec),
        Kind::Command => go!(CommandCodec),
        Kind::Auth => go!(AuthenticateDataCodec),
        Kind::Response => go!(ResponseCodec),
        Kind::Idle => go!(IdleDoneCodec),
    }
}

/// Peak memory a decoder may use for an input of `n` bytes (several times what was ever observed).
fn memory_bound(n: usize) -> u64 {
    16 * 1024 + 600 * n as u64
}
/// CPU time a decoder may use for an input of `n` bytes. Deliberately far above what is observed (below
/// a microsecond per byte), so that only a change of the growth rate is visible, never a slow machine.
fn cpu_bound(n: usize) -> u64 {
    300_000_000 + 2_000 * n as u64
}

/// Returns the CPU time of one decoding in nanoseconds.
fn probe(ctx: &mut Ctx, kind: Kind, b: &[u8]) -> u64 {
    ctx.tick();
    let t0 = alloc::cpu_ns();
    let (what, u) = alloc::measure(|| raw(kind, b));
    let mut t = alloc::cpu_ns() - t0;
    ctx.c(what);
    if ctx.replay && std::env::var("MON_STAT").is_ok() {
        eprintln!("{kind:?} len {} peak {} ({:.1}/byte) cpu {} us {}", b.len(), u.peak, u.peak as f64 / b.len().max(1) as f64, t / 1000, show(&b[..b.len().min(80)]));
    }
    ctx.cn("bytes-decoded", b.len() as u64);
    let ratio = u.peak * 100 / (b.len() as u64 + 100);
    let m = ctx.cov.entry("max-peak-memory-percent-of-input".into()).or_default();
    *m = (*m).max(ratio);
    if b.len() >= 100_000 {
        let m = ctx.cov.entry("max-picoseconds-per-byte-of-large-inputs".into()).or_default();
        *m = (*m).max(t * 1000 / b.len() as u64);
    }
    ctx.check(u.peak <= memory_bound(b.len()), "memory out of proportion", b, || {
        format!("{kind:?}: {} bytes of input, peak {} bytes", b.len(), u.peak)
    });
    if t > cpu_bound(b.len()) {
        for _ in 0..2 {
            let t0 = alloc::cpu_ns();
            raw(kind, b);
            t = t.min(alloc::cpu_ns() - t0);
        }
        ctx.check(t <= cpu_bound(b.len()), "work out of proportion", b, || format!("{kind:?}: {} bytes of input, {} ms of CPU time", b.len(), t / 1_000_000));
    }
    t
}

fn frag(ctx: &mut Ctx, r: &mut Rng, b: &[u8]) {
    let (_, u) = alloc::measure(|| frag_run(ctx, r, b));
    ctx.check(u.peak <= 4 * 4096 + memory_bound(b.len()), "memory of the fragmentizer out of proportion", b, || {
        format!("{} bytes of input, peak {} bytes", b.len(), u.peak)
    });
}

fn frag_run(ctx: &mut Ctx, r: &mut Rng, b: &[u8]) {
    let max = match r.below(3) {
        0 => None,
        1 => Some(r.below(64) as u32),
        _ => Some(4096),
    };
    let mut f = max.map(Fragmentizer::new).unwrap_or_else(Fragmentizer::without_max_message_size);
    let mut i = 0;
    let mut n = 0usize;
    loop {
        while let Some(x) = f.progress() {
            n += 1;
            let _ = f.fragment_bytes(x).len();
            if n > 2 * b.len() + 4 {
                ctx.fail("fragmentizer does not terminate", format!("{n} fragments from {} bytes", b.len()), b);
                return;
            }
            if f.is_message_complete() {
                let _ = f.decode_tag();
                let _ = f.decode_message(&CommandCodec::default()).is_ok();
                let _ = f.decode_message(&ResponseCodec::default()).is_ok();
                let _ = f.decode_message(&GreetingCodec::default()).is_ok();
                let _ = f.decode_message(&AuthenticateDataCodec::default()).is_ok();
                let _ = f.decode_message(&IdleDoneCodec::default()).is_ok();
                ctx.c("framed-messages");
            }
        }
        if i == b.len() {
            break;
        }
        let c = if b.len() > 2000 { r.range(1, 3000) } else { r.range(1, 40) }.min(b.len() - i);
        f.enqueue_bytes(&b[i..i + c]);
        i += c;
    }
    let _ = f.decode_message(&ResponseCodec::default()).is_ok();
}

fn any_bytes(ctx: &mut Ctx, r: &mut Rng, seed: u64) -> (Kind, Vec<u8>) {
    match r.below(40) {
        0 | 1 => {
            ctx.c("shape:random-bytes");
            let n = r.below(60);
            (*r.pick(&KINDS), (0..n).map(|_| r.below(256) as u8).collect())
        }
        2 | 3 => {
            ctx.c("shape:dictionary-soup");
            let n = r.range(1, 12);
            let mut v = Vec::new();
            if r.bool() {
                v.extend_from_slice(r.pick(&["* ", "a ", "+ ", "* 1 FETCH (", "a SEARCH ", "* OK ", "a FETCH 1 ", "* LIST ", "a STORE 1 "]).as_bytes());
            }
            for _ in 0..n {
                v.extend_from_slice(r.pick(DICT).as_bytes());
                if r.bool() {
                    v.push(b' ');
                }
            }
            v.extend_from_slice(b"\r\n");
            (*r.pick(&KINDS), v)
        }
        4 => {
            ctx.c("shape:announced-literal");
            let c = p_codec::any(seed);
            let w = c.canon.bytes();
            let lits = c.canon.literals();
            let n = *r.pick(&["4294967295", "4294967294", "4294967296", "2147483648", "2147483647", "1000000000", "99999999999999999999", "18446744073709551615", "16777216"]);
            let mut v = match lits.first() {
                Some((o, _, _)) => {
                    let i = w[..*o].iter().rposition(|b| *b == b'{').unwrap();
                    w[..i].to_vec()
                }
                None => w[..r.below(w.len())].to_vec(),
            };
            v.extend_from_slice(format!("{{{n}{}}}\r\n", if r.bool() { "+" } else { "" }).as_bytes());
            v.extend((0..r.below(200)).map(|_| r.below(256) as u8));
            (c.value.kind(), v)
        }
        5 => {
            // A token repeated many times.
            ctx.c("shape:repetition");
            let c = p_codec::any(seed);
            let w = c.canon.bytes();
            let (a, b) = (r.below(w.len()), r.below(w.len()));
            let (a, b) = (a.min(b), a.max(b) + 1);
            let max = if r.chance(1, 10) { 60_000 } else { 6000 };
            let k = r.range(1, max) / (b - a) + 1;
            let mut v = w[..a].to_vec();
            for _ in 0..k {
                v.extend_from_slice(&w[a..b]);
            }
            v.extend_from_slice(&w[b..]);
            (c.value.kind(), v)
        }
        6 => {
            ctx.c("shape:nested");
            nested(r)
        }
        7 => {
            // Long single tokens.
            ctx.c("shape:long-token");
            let pre = *r.pick(&["", "a ", "* ", "+ ", "* OK [", "* OK ", "a LOGIN ", "a LOGIN \"", "* FLAGS (", "* CAPABILITY ", "* SEARCH ", "a FETCH ", "a SEARCH ", "* 1 FETCH (UID ", "* LIST () \"", "a AUTHENTICATE PLAIN ", "a ID (", "* QUOTA ", "a UID FETCH ", "* 1 FETCH (BODY[", "a FETCH 1 BODY["]);
            let unit = *r.pick(&["a", "1", "0", "9", "\\\\", "\\\"", "1,", "1:2,", "1.", " ", "(", ")", "\"\" ", "{0}\r\n ", "=", "AAAA", "\\a ", "x=y ", "%", "*", "~", "ä", "\u{0}", "[", "]", "NIL ", "()", "(NIL) ", "+", "-", "{", "}", "<", "\r", "1 "]);
            let n = if r.chance(1, 10) { r.range(1, 60_000) } else { r.range(1, 4000) };
            let mut v = pre.as_bytes().to_vec();
            while v.len() < n {
                v.extend_from_slice(unit.as_bytes());
            }
            v.extend_from_slice(r.pick(&["\r\n", "", ")\r\n", "\"\r\n", "]\r\n", "] x\r\n", " \"x\"\r\n"]).as_bytes());
            (*r.pick(&KINDS), v)
        }
        _ => {
            ctx.c("shape:mutated-message");
            let c = p_codec::any(seed);
            let mut w = if r.bool() { c.styled.bytes() } else { c.canon.bytes() };
            let other = if r.bool() { p_codec::any(seed.wrapping_mul(3)).canon.bytes() } else { vec![] };
            for _ in 0..r.range(1, 6) {
                mutate::edit(r, &mut w, &other);
            }
            if r.chance(1, 6) && !w.is_empty() {
                w.truncate(r.below(w.len()));
            }
            (c.value.kind(), w)
        }
    }
}

const ENV: &str = "(NIL NIL NIL NIL NIL NIL NIL NIL NIL NIL)";

/// (prefix, opening, leaf, closing, suffix, kind)
fn families() -> Vec<(String, String, String, String, String, Kind)> {
    let mut v = Vec::new();
    let mut add = |k: Kind, p: &str, o: &str, l: &str, c: &str, s: &str| v.push((p.to_string(), o.to_string(), l.to_string(), c.to_string(), s.to_string(), k));
    use Kind::*;
    let text = "(\"TEXT\" \"PLAIN\" NIL NIL NIL \"7BIT\" 1 1)";
    for item in ["BODY", "BODYSTRUCTURE"] {
        let p = format!("* 1 FETCH ({item} ");
        add(Response, &p, "(", "", "", "");
        add(Response, &p, "(", text, " \"MIXED\")", ")\r\n");
        let m = format!("(\"MESSAGE\" \"RFC822\" NIL NIL NIL \"7BIT\" 1 {ENV} ");
        add(Response, &p, &m, text, " 1)", ")\r\n");
        add(Response, &p, &m, "", "", "");
        add(Response, &p, &format!("({m}"), text, " 1) \"MIXED\")", ")\r\n");
        add(Response, &p, &format!("{m}("), text, " \"MIXED\") 1)", ")\r\n");
        let ext = format!("{p}(\"TEXT\" \"PLAIN\" NIL NIL NIL \"7BIT\" 1 1 NIL NIL NIL NIL ");
        add(Response, &ext, "(", "1", ")", "))\r\n");
        add(Response, &ext, "(", "", "", "");
        add(Response, &ext, "(\"a\" 1 ", "NIL", ")", "))\r\n");
        // The dispositions and languages.
        let dsp = format!("{p}(\"TEXT\" \"PLAIN\" NIL NIL NIL \"7BIT\" 1 1 NIL ");
        add(Response, &dsp, "(", "", "", "");
        add(Response, &dsp, "(\"x\" ", "NIL", ")", "))\r\n");
        add(Response, &p, "(\"TEXT\" \"PLAIN\" ", "NIL", ")", ")\r\n");
    }
    add(Response, "* THREAD ", "(", "1", ")", "\r\n");
    add(Response, "* THREAD ", "(1 ", "1", ")", "\r\n");
    add(Response, "* THREAD ", "((1)", "(2)", ")", "\r\n");
    add(Response, "* THREAD ", "(1 (2)", "(3)", ")", "\r\n");
    add(Response, "* THREAD ", "((", "1", "))", "\r\n");
    add(Response, "* THREAD ", "(1 (2 3)(", "4", "))", "\r\n");
    add(Response, "* THREAD ", "(", "", "", "");
    for (p, s) in [("a SEARCH ", "\r\n"), ("a UID SEARCH ", "\r\n"), ("a SORT (DATE) UTF-8 ", "\r\n"), ("a THREAD REFERENCES UTF-8 ", "\r\n"), ("a SEARCH CHARSET UTF-8 ", "\r\n")] {
        add(Command, p, "NOT ", "ALL", "", s);
        add(Command, p, "OR ALL ", "ALL", "", s);
        add(Command, p, "OR NOT ", "ALL", " ALL", s);
        add(Command, p, "OR ", "ALL", " ALL", s);
        add(Command, p, "(", "ALL", ")", s);
        add(Command, p, "(ALL ", "ALL", ")", s);
        add(Command, p, "(NOT OR ", "ALL", " ALL)", s);
        add(Command, p, "(", "", "", "");
        add(Command, p, "(OR (ALL ALL) ", "ALL", ")", s);
    }
    // Other parenthesised lists.
    for p in ["* LIST ", "* FLAGS ", "* NAMESPACE ", "* ESEARCH ", "* STATUS a ", "* QUOTA a ", "* ID ", "* METADATA a ", "* 1 FETCH ", "* 1 FETCH (FLAGS ", "* 1 FETCH (ENVELOPE ", "* OK [PERMANENTFLAGS ", "* OK [BADCHARSET ", "* VANISHED ", "* OK [METADATA "] {
        add(Response, p, "(", "", "", "");
        add(Response, p, "(", "x", ")", "\r\n");
    }
    for p in ["a FETCH 1 ", "a STORE 1 FLAGS ", "a STATUS a ", "a LIST ", "a ID ", "a APPEND x ", "a SETQUOTA x ", "a GETMETADATA ", "a SETMETADATA x ", "a SELECT x ", "a FETCH 1 BODY[HEADER.FIELDS ", "a SORT ", "a ENABLE "] {
        add(Command, p, "(", "", "", "");
        add(Command, p, "(", "x", ")", "\r\n");
    }
    v
}

fn nested(r: &mut Rng) -> (Kind, Vec<u8>) {
    let f = families();
    let (p, o, l, c, s, k) = &f[r.below(f.len())];
    let d = r.range(1, 400);
    (*k, [p.as_str(), &o.repeat(d), l, &c.repeat(if r.chance(1, 8) { d / 2 } else { d }), s].concat().into_bytes())
}

fn case(ctx: &mut Ctx, seed: u64) {
    let mut r = Rng::new(seed ^ 0x726f);
    let (kind, b) = any_bytes(ctx, &mut r, seed);
    ctx.current = b.clone();
    ctx.eval(&b);
    probe(ctx, kind, &b);
    if r.chance(1, 3) {
        for k in KINDS {
            if k != kind {
                probe(ctx, k, &b);
            }
        }
        frag(ctx, &mut r, &b);
    }
    if r.chance(1, 16) {
        ctx.c("static-decodings");
        match decode_static(kind, &b) {
            Dec::Ok { msg, .. } => {
                let _ = format!("{msg:?}");
            }
            _ => {}
        }
    }
}

/// Enumerated: every nesting family at depths up to a hundred thousand; growth of time with size.
fn fixed(ctx: &mut Ctx) {
    let mut r = Rng::new(7);
    for (p, o, l, c, s, k) in families() {
        for d in [1usize, 2, 4, 6, 7, 8, 9, 10, 11, 12, 16, 24, 32, 64, 128, 256, 1000, 10_000, 60_000] {
            if o.len() * d > 6_000_000 {
                continue;
            }
            let b = [p.as_str(), &o.repeat(d), &l, &c.repeat(d), &s].concat().into_bytes();
            ctx.current = b.clone();
            ctx.eval(&b[..b.len().min(3000)]);
            ctx.c("nesting-depths");
            probe(ctx, k, &b);
            if d <= 64 {
                frag(ctx, &mut r, &b);
                let _ = decode(k, &b);
            }
        }
    }
    // The same, with something long in the middle and an end that is missing or wrong: trying an alternative again at
    // every level would cost a factor per level.
    for (p, o, l, c, s, k) in families() {
        let n = 60_000;
        let many = |first: &str, more: &str, last: &str| [first, more.repeat(n / more.len()).as_str(), last].concat();
        let long = match l.as_str() {
            "" => continue,
            "ALL" => many("(ALL", " ALL", ")"),
            "(2)" => many("(2)", "(2)", ""),
            "NIL" => many("\"", "x", "\""),
            "x" => many("x", " x", ""),
            "1" | "3" | "4" => many("1", " 2", ""),
            text => many("(", text, " \"MIXED\")"),
        };
        let mut shallow = [0; 5];
        for d in [1usize, 3, 5, 6, 7, 8] {
            let b = [p.as_str(), &o.repeat(d), &long, &c.repeat(d), &s].concat().into_bytes();
            ctx.eval(format!("{p}{o}{l}{c}{s}{d}").as_bytes());
            ctx.c("nested-and-long");
            let mut bad = b.clone();
            let i = bad.len() - s.len() - c.len() / 2 - 1;
            bad[i] = 0;
            let end = p.len() + o.len() * d + long.len();
            let mut inner = b.clone();
            inner[end - 2] = 0;
            for (i, b) in [&b[..], &b[..b.len() - s.len().max(1)], &b[..end], &bad, &inner].into_iter().enumerate() {
                ctx.current = b.to_vec();
                let t = probe(ctx, k, b);
                if d == 1 {
                    shallow[i] = t;
                } else {
                    let m = ctx.cov.entry("max-work-nested-by-work-flat-percent".into()).or_default();
                    *m = (*m).max(t * 100 / (shallow[i] + 1_000_000));
                    // The same content costs about the same at any depth (the code today: less than 1 ms more).
                    let bound = 6 * shallow[i] + 5_000_000;
                    let t = if t > bound { (0..3).map(|_| probe(ctx, k, b)).min().unwrap() } else { t };
                    ctx.check(t <= bound, "work depends on the nesting", b, || format!("{k:?}: {} bytes at depth {d}: {} us of CPU time, at depth 1: {} us", b.len(), t / 1000, shallow[i] / 1000));
                }
            }
        }
    }
    // The fragmentizer's work is proportional to what it was given, in one piece or byte by byte.
    let n = 1_000_000usize;
    let streams: &[(&str, Vec<u8>)] = &[
        ("one line", [vec![b'x'; n], b"\r\n".to_vec()].concat()),
        ("one literal", [format!("a {{{n}}}\r\n").into_bytes(), vec![b'x'; n], b"\r\n".to_vec()].concat()),
        ("brackets", [b"{1".repeat(n / 2), b"\r\n".to_vec()].concat()),
        ("short lines", b"a\r\n".repeat(n / 3)),
        ("short literals", [b"a {1}\r\nx".repeat(n / 8), b"\r\n".to_vec()].concat()),
    ];
    for (name, b) in streams {
        for chunk in [1usize, 1000, b.len()] {
            for max in [None, Some(100u32), Some(2_000_000)] {
                ctx.eval(format!("{name} {chunk} {max:?}").as_bytes());
                ctx.c("fragmentizer-bulk");
                ctx.current = format!("fragmentizer: {name}, chunks of {chunk}, maximum {max:?}").into_bytes();
                let t0 = alloc::cpu_ns();
                let mut f = max.map(Fragmentizer::new).unwrap_or_else(Fragmentizer::without_max_message_size);
                let mut k = 0usize;
                for c in b.chunks(chunk) {
                    f.enqueue_bytes(c);
                    while let Some(x) = f.progress() {
                        k += f.fragment_bytes(x).len().min(1);
                    }
                }
                let t = alloc::cpu_ns() - t0;
                ctx.cn("bulk-fragments", k as u64);
                let what = ctx.current.clone();
                ctx.check(t <= cpu_bound(b.len()), "work of the fragmentizer out of proportion", &what, || format!("{} bytes, {} ms of CPU time", b.len(), t / 1_000_000));
            }
        }
    }
    // Long flat messages: lists of many items.
    let flat: &[(&str, &str, &str, &str, Kind)] = &[
        ("a SEARCH ALL", " ALL", "", "\r\n", Kind::Command),
        ("a SEARCH 1", ",2", "", "\r\n", Kind::Command),
        ("a SEARCH (ALL", " NOT ALL", ")", "\r\n", Kind::Command),
        ("a FETCH 1 (UID", " BODY[1.2.3.HEADER.FIELDS (a b)]<1.2>", ")", "\r\n", Kind::Command),
        ("a FETCH 1 (UID", " FLAGS", ")", "\r\n", Kind::Command),
        ("a STORE 1 FLAGS (\\Seen", " \\Flagged", ")", "\r\n", Kind::Command),
        ("a ENABLE X", " CONDSTORE", "", "\r\n", Kind::Command),
        ("a LOGIN \"", "\\\"", "\" x", "\r\n", Kind::Command),
        ("a LOGIN \"", "a", "\" x", "\r\n", Kind::Command),
        ("a AUTHENTICATE PLAIN ", "AAAA", "", "\r\n", Kind::Command),
        ("* CAPABILITY IMAP4REV1", " AUTH=PLAIN", "", "\r\n", Kind::Response),
        ("* CAPABILITY IMAP4REV1", " X", "", "\r\n", Kind::Response),
        ("* SEARCH", " 1", "", "\r\n", Kind::Response),
        ("* SORT", " 1", "", "\r\n", Kind::Response),
        ("* THREAD ", "(1)", "", "\r\n", Kind::Response),
        ("* THREAD (1", " 2", ")", "\r\n", Kind::Response),
        ("* FLAGS (a", " b", ")", "\r\n", Kind::Response),
        ("* OK ", "x", "", "\r\n", Kind::Response),
        ("* OK [X", " y", "] z", "\r\n", Kind::Response),
        ("* OK [COPYUID 1 1", ",2", " 1] z", "\r\n", Kind::Response),
        ("* 1 FETCH (UID 1", " UID 1", ")", "\r\n", Kind::Response),
        ("* 1 FETCH (ENVELOPE (NIL NIL (", "(NIL NIL NIL NIL)", ") NIL NIL NIL NIL NIL NIL NIL))", "\r\n", Kind::Response),
        ("* 1 FETCH (BODY (", "(\"TEXT\" \"PLAIN\" NIL NIL NIL \"7BIT\" 1 1)", " \"MIXED\"))", "\r\n", Kind::Response),
        ("* 1 FETCH (BODY (\"TEXT\" \"PLAIN\" (\"a\" \"b\"", " \"c\" \"d\"", ") NIL NIL \"7BIT\" 1 1))", "\r\n", Kind::Response),
        ("* 1 FETCH (BODY[] \"", "x", "\")", "\r\n", Kind::Response),
        ("* 1 FETCH (BODY[] {65536}\r\n", "x", "", "", Kind::Response),
        ("* LIST (\\a", " \\b", ") \"/\" x", "\r\n", Kind::Response),
        ("+ ", "AAAA", "", "\r\n", Kind::Response),
        ("", "AAAA", "", "\r\n", Kind::Auth),
        ("* OK [CAPABILITY IMAP4REV1", " X", "] x", "\r\n", Kind::Greeting),
    ];
    // The same with items that all differ, so that comparing each with all others would show.
    for (p, u, e, s, k) in flat::DISTINCT {
        let mut small = 0;
        for n in [20_000usize, 600_000] {
            let mut items = String::with_capacity(n + 100);
            let mut i = 1u64;
            while items.len() < n {
                i += 2;
                items.push_str(&u.replace('#', &i.to_string()));
            }
            let b = [*p, items.as_str(), e, s].concat().into_bytes();
            ctx.current = b[..400].to_vec();
            ctx.eval(format!("{p}{u}{n}").as_bytes());
            ctx.c("distinct-items");
            if raw(*k, &b) == "accepted" {
                ctx.c("distinct-items-accepted");
            } else if std::env::var("MON_STAT").is_ok() {
                eprintln!("not accepted: {p:?} {u:?} {e:?} {s:?}");
            }
            let t = probe(ctx, *k, &b);
            if n == 20_000 {
                small = (0..3).map(|_| probe(ctx, *k, &b)).max().unwrap().max(t);
            } else {
                // Thirty times the input: a linear decoder takes some thirty times as long, a quadratic one 900 times.
                let bound = 300 * small + 20_000_000;
                let t = if t > bound { (0..3).map(|_| probe(ctx, *k, &b)).min().unwrap() } else { t };
                let m = ctx.cov.entry("max-growth-percent-of-linear".into()).or_default();
                *m = (*m).max(t * 100 / (30 * small).max(1));
                ctx.check(t <= bound, "work grows faster than the input", &b, || format!("{k:?}: {} bytes take {} us, a thirtieth of it {} us", b.len(), t / 1000, small / 1000));
            }
            probe(ctx, *k, &b[..b.len() - 3]);
            let mut bad = b.clone();
            let i = bad.len() - 4;
            bad[i] = 0;
            probe(ctx, *k, &bad);
        }
    }
    for (p, u, e, s, k) in flat {
        for n in [10usize, 1000, 20_000, 200_000] {
            let b = [*p, &u.repeat(n / u.len().min(n) + 1), e, s].concat().into_bytes();
            ctx.current = b.clone();
            ctx.eval(&b);
            ctx.c("flat-sizes");
            probe(ctx, *k, &b);
            // Dropping the last bytes makes it incomplete or malformed.
            probe(ctx, *k, &b[..b.len() - 3]);
            let mut bad = b.clone();
            let i = bad.len() - 4;
            bad[i] = 0;
            probe(ctx, *k, &bad);
        }
    }
}
