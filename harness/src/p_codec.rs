//! C02 - C10, C13, C15, C20: monitors around the encoder and the decoders.
use imap_codec::encode::Fragment;
use imap_types::core::LiteralMode;

use crate::{
    Prop,
    cogen::{self, Case, G, ANY_QUIRK, M, Mark, RELAXED},
    ctx::Ctx,
    msg::{Dec, KINDS, Kind, Msg, concat, decode, decode_static},
    mutate,
    rng::Rng,
    wire::show,
};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C02", fixed: None, case: c02, quick: 3000000, thorough: 40000000 },
        Prop { id: "C03", fixed: None, case: c03, quick: 1500000, thorough: 30000000 },
        Prop { id: "C04", fixed: None, case: c04, quick: 3000000, thorough: 40000000 },
        Prop { id: "C05", fixed: None, case: c05, quick: 2000000, thorough: 30000000 },
        Prop { id: "C06", fixed: None, case: c06, quick: 2500000, thorough: 60000000 },
        Prop { id: "C07", fixed: None, case: c07, quick: 2000000, thorough: 30000000 },
        Prop { id: "C08", fixed: None, case: c08, quick: 60000, thorough: 1500000 },
        Prop { id: "C09", fixed: None, case: c09, quick: 60000, thorough: 1500000 },
        Prop { id: "C10", fixed: None, case: c10, quick: 2000000, thorough: 20000000 },
    ]
}

/// A command (nine in ten), authenticate data or IDLE done.
pub fn client(seed: u64) -> Case<Msg> {
    cogen::case(seed, |g| match g.r.below(24) {
        0 => Msg::Auth(g.authenticate_data()),
        1 => {
            if g.r.chance(1, 4) {
                g.idle_done();
                Msg::Idle(imap_types::extensions::idle::IdleDone)
            } else {
                Msg::Auth(g.authenticate_data())
            }
        }
        _ => Msg::Command(g.command(None)),
    })
}
pub fn server(seed: u64) -> Case<Msg> {
    cogen::case(seed, |g| match g.r.below(12) {
        0 => Msg::Greeting(g.greeting()),
        _ => Msg::Response(g.response()),
    })
}
pub fn any(seed: u64) -> Case<Msg> {
    if seed & 1 == 0 { client(seed) } else { server(seed) }
}

fn round_trip(ctx: &mut Ctx, c: Case<Msg>) {
    ctx.merge(&c.cov);
    ctx.current = c.canon.bytes();
    let enc = c.value.dump();
    ctx.eval(&enc);
    match decode(c.value.kind(), &enc) {
        Dec::Ok { rem, msg } => {
            ctx.check(rem.is_empty(), "round trip leaves a remainder", &enc, || format!("remainder {}", show(&rem)));
            ctx.same(&msg, &c.normed, "round trip changes the message", &enc);
        }
        other => ctx.fail(
            "encoded message is not decodable",
            format!("{}: value {:?}", other.name(), c.value),
            &enc,
        ),
    }
}
fn c02(ctx: &mut Ctx, seed: u64) {
    round_trip(ctx, client(seed));
}
fn c03(ctx: &mut Ctx, seed: u64) {
    round_trip(ctx, server(seed));
}

fn c04(ctx: &mut Ctx, seed: u64) {
    let c = any(seed);
    ctx.merge(&c.cov);
    let want = c.canon.bytes();
    ctx.current = want.clone();
    ctx.eval(&want);
    let got = concat(&c.value.fragments());
    ctx.check(got == want, "encoder output differs from the RFC wire form", &want, || {
        format!("got  {}\nwant {}\nvalue {:?}", show(&got), show(&want), c.value)
    });
}

fn c05(ctx: &mut Ctx, seed: u64) {
    let c = any(seed);
    ctx.merge(&c.cov);
    let wire = c.styled.bytes();
    ctx.current = wire.clone();
    ctx.eval(&wire);
    match decode(c.value.kind(), &wire) {
        Dec::Ok { rem, msg } => {
            ctx.check(rem.is_empty(), "legal message leaves a remainder", &wire, || format!("remainder {}", show(&rem)));
            ctx.same(&msg, &c.value, "legal message decodes to something else", &wire);
        }
        other => ctx.fail("legal message is not decoded", format!("{}: want {:?}", other.name(), c.value), &wire),
    }
}

fn mutated(seed: u64) -> (Kind, Vec<u8>) {
    let mut r = Rng::new(seed ^ 0x6d75);
    let c = any(seed);
    let kind = c.value.kind();
    let mut w = if r.bool() { c.styled.bytes() } else { c.canon.bytes() };
    let n = match r.below(8) {
        0 => 0,
        1..=4 => 1,
        5 | 6 => 2,
        _ => r.range(3, 6),
    };
    if n > 0 {
        let other = any(seed.wrapping_mul(0x9E37) ^ (seed & 1)).canon.bytes();
        for _ in 0..n {
            mutate::edit(&mut r, &mut w, &other);
        }
    }
    (kind, w)
}

fn c06(ctx: &mut Ctx, seed: u64) {
    let (kind, w) = mutated(seed);
    ctx.current = w.clone();
    let mut d = decode(kind, &w);
    if !d.is_ok() && (kind == Kind::Greeting || seed % 16 == 0) {
        for k in KINDS {
            if k != kind {
                d = decode(k, &w);
                if d.is_ok() {
                    break;
                }
            }
        }
    }
    let Dec::Ok { rem, msg } = d else {
        ctx.tick();
        ctx.c("input-rejected");
        return;
    };
    let used = w.len() - rem.len().min(w.len());
    let consumed = &w[..used];
    ctx.c("input-accepted");
    ctx.eval(consumed);
    let e1 = msg.dump();
    if e1 != consumed {
        ctx.c("accepted-not-canonical");
    }
    if !ANY_QUIRK {
        // Nothing rectified: whatever the spelling, the content is the same.
        ctx.c("contents-compared");
        if let Some(d) = crate::lex::differ(consumed, &e1) {
            ctx.fail("re-encoding changes the content", format!("{d}; re-encoded {}", show(&e1)), consumed);
        }
    }
    match decode(msg.kind(), &e1) {
        Dec::Ok { rem, msg: m2 } => {
            ctx.check(rem.is_empty(), "re-encoded message leaves a remainder", consumed, || format!("re-encoded {} remainder {}", show(&e1), show(&rem)));
            let want = crate::normal::normalise(msg.clone());
            if !ctx.same(&m2, &want, "re-encoding changes the message", consumed) {
                ctx.fails.last_mut().map(|f| f.detail.push_str(&format!("\nre-encoded {}", show(&e1))));
            }
            let e2 = m2.dump();
            ctx.check(e1 == e2, "re-encoding is not stable", consumed, || format!("first {} second {}", show(&e1), show(&e2)));
        }
        other => ctx.fail(
            "re-encoded message is not decodable",
            format!("{}: re-encoded {} of {:?}", other.name(), show(&e1), msg),
            consumed,
        ),
    }
}

// ----- C07 -----

/// Break a valid message so that it violates the grammar. Returns what was done and the broken wire.
pub fn break_it(r: &mut Rng, c: &Case<Msg>) -> Option<(&'static str, String, Vec<u8>)> {
    let w = c.canon.bytes();
    let lits = c.canon.literals();
    let in_lit = |p: usize| lits.iter().any(|(o, n, _)| p >= *o && p < *o + *n);
    let kind = c.value.kind();
    if r.chance(1, 4) {
        let n = w.len();
        let (name, out): (&'static str, Vec<u8>) = match r.below(6) {
            0 => {
                let e: &[u8] = *r.pick(&[&b"\n"[..], b"\r", b"\r\r\n", b"\n\r", b" \n", b"\r \n"]);
                if RELAXED && e.contains(&b'\n') {
                    return None;
                }
                ("line end", [&w[..n - 2], e].concat())
            }
            1 | 2 => {
                // A control character that no production allows outside of literals.
                let p = r.below(n);
                let b = *r.pick(&[0u8, b'\r', b'\n', 0xff]);
                if in_lit(p) || p > 0 && w[p - 1] == b'\r' && b == b'\n' || RELAXED && (b == b'\n' || b == b'\r') {
                    return None;
                }
                if lits.iter().any(|(o, _, _)| *o == p) {
                    return None;
                }
                // With ext_utf8 NUL is tolerated in quoted strings (pinned by a test of the project); an unknown
                // response code may contain any byte but `]`, CR and LF.
                if b == 0 && crate::cogen::EXT && w.contains(&b'"') || (b == 0 || b == 0xff) && !has_structured_end(c) {
                    return None;
                }
                let mut v = w.clone();
                v.insert(p, b);
                ("forbidden byte", v)
            }
            3 => {
                if matches!(c.value, Msg::Greeting(_)) || !has_structured_end(c) {
                    return None;
                }
                let junk: &[u8] = *r.pick(&[&b" \""[..], b")", b" )", b"\"", b" (", b"{", b"\\", b" \\ "]);
                ("junk before the line end", [&w[..n - 2], junk, b"\r\n"].concat())
            }
            4 => {
                if kind != Kind::Command {
                    return None;
                }
                let sp = w.iter().position(|b| *b == b' ')?;
                let tag: &[u8] = *r.pick(&[&b""[..], b"+", b"*", b"a+", b"a b", b"(a", b"a\"", b"\"a\"", b"%", b"a{", b"\\a", b"\x7fa", b"a\x01"]);
                if tag == b"a b" {
                    // Shifts everything: the old tag would be the command.
                    return None;
                }
                ("tag", [tag, &w[sp..]].concat())
            }
            5 => {
                // NUL in a literal (legal in literal8 only).
                let (o, l, _) = *lits.get(r.below(lits.len().max(1)))?;
                if l == 0 || w[..o].iter().rposition(|b| *b == b'{').is_some_and(|i| i > 0 && w[i - 1] == b'~') {
                    return None;
                }
                let mut v = w.clone();
                v[o + r.below(l)] = 0;
                ("NUL in literal", v)
            }
            _ => unreachable!(),
        };
        return Some((name, name.to_string(), out));
    }
    let m = pick_mark(r, &c.marks)?;
    break_mark(r, c, m)
}
fn pick_mark(r: &mut Rng, marks: &[Mark]) -> Option<Mark> {
    if marks.is_empty() {
        return None;
    }
    // Kinds that are rare within a message are picked as often as the others half of the time.
    Some(if r.bool() {
        *r.pick(marks)
    } else {
        let k = r.pick(marks).kind as u8;
        let mut kinds: Vec<u8> = marks.iter().map(|m| m.kind as u8).collect();
        kinds.sort_unstable();
        kinds.dedup();
        let k = if r.chance(1, 8) { k } else { *r.pick(&kinds) };
        let of: Vec<_> = marks.iter().filter(|m| m.kind as u8 == k).collect();
        **r.pick(&of)
    })
}
fn break_mark(r: &mut Rng, c: &Case<Msg>, m: Mark) -> Option<(&'static str, String, Vec<u8>)> {
    let w = c.canon.bytes();
    let lits = c.canon.literals();
    let old = w[m.at..m.at + m.len].to_vec();
    let rep = |new: &[u8]| -> Vec<u8> { [&w[..m.at], new, &w[m.at + m.len..]].concat() };
    let pick = |r: &mut Rng, xs: &[&str]| -> Vec<u8> { r.pick(xs).as_bytes().to_vec() };
    let (name, new): (&'static str, Vec<u8>) = match m.kind {
        M::Kw => {
            let mut k = old.clone();
            match r.below(4) {
                3 if k.len() > 2 => {
                    k.truncate(r.range(1, k.len() - 2));
                    if PREFIXES.contains(&&k.to_ascii_uppercase()[..]) {
                        return None;
                    }
                }
                0 => k.push(*r.pick(b"Qz7")),
                1 => {
                    k.pop();
                }
                _ => {
                    let i = r.below(k.len());
                    k[i] = if k[i] == b'_' { b'q' } else { b'_' };
                }
            }
            // Still a keyword that is legal in the same place?
            if KEYWORDS.contains(&&k.to_ascii_uppercase()[..]) || k.is_empty() {
                return None;
            }
            ("keyword", k)
        }
        M::Nz => ("non-zero number", pick(r, &["0", "4294967296", "", "-1", "+1", "99999999999999999999", "1x", "0x1", "00"])),
        M::Octets if cfg!(feature = "q_rectify_numbers") => ("number", pick(r, &["4294967296", "", "+1", "99999999999999999999", "1x", "--1", "-", "-x", "1-1"])),
        M::Str => ("string", pick(r, &["NIL", "nil", "xyz", "'a'", "", "()", "1", "a\"b\""])),
        M::NStr => ("nstring", pick(r, &["xyz", "'a'", "", "NILS", "NI", "1x", "a\"b\"", "NIL\"\""])),
        M::U32 | M::Octets => ("number", pick(r, &["-1", "-0", "-4294967295", "4294967296", "", "+1", "99999999999999999999", "1x", "0x1", "1-1"])),
        M::U64 => ("64 bit number", pick(r, &["18446744073709551616", "", "-1", "+1", "99999999999999999999999", "1x"])),
        M::Nz64 => ("non-zero 64 bit number", pick(r, &["0", "18446744073709551616", "", "-1", "+1", "1x"])),
        M::SeqSet => (
            "sequence set",
            pick(
                r,
                &["0", "", "1:", ":1", "1,,2", ",1", "1,", "1:2:3", "4294967296", "1:4294967296", "**", "1:0", "0:1", "-1", "+1", "1.2", "1;2", "1:-2", "1, 2", "1 :2", "*0", "x", "1:x"],
            ),
        ),
        M::Date => (
            "date",
            pick(
                r,
                &[
                    "\"31-Feb-2020\"", "\"30-Feb-2020\"", "\"29-Feb-2023\"", "\"29-Feb-1900\"", "\"31-Apr-2020\"", "\"31-Jun-2020\"", "\"31-Sep-2020\"", "\"31-Nov-2020\"", "\"00-Jan-2020\"",
                    "\"0-Jan-2020\"", "\"32-Jan-2020\"", "\"1-Foo-2020\"", "\"1-January-2020\"", "\"1-Jan-20\"", "\"1-Jan-20200\"", "\"1-01-2020\"", "1-Jan-2020\"", "\"1-Jan-2020", "\"1 Jan 2020\"",
                    "\"2020-01-01\"", "\"001-Jan-2020\"", "\"-1-Jan-2020\"", "\"1-Jan-\"", "\"1--2020\"", "\"\"", "\"1-Jan-+202\"", "\"1-Jan--202\"",
                ],
            ),
        ),
        M::DateTime => (
            "date-time",
            pick(
                r,
                &[
                    "\"31-Feb-2020 00:00:00 +0000\"", "\"29-Feb-2021 00:00:00 +0000\"", "\"32-Jan-2020 00:00:00 +0000\"", "\"00-Jan-2020 00:00:00 +0000\"", "\"01-Jan-2020 24:00:00 +0000\"",
                    "\"01-Jan-2020 00:60:00 +0000\"", "\"01-Jan-2020 00:00:61 +0000\"", "\"01-Jan-2020 00:00:00 +2400\"", "\"01-Jan-2020 00:00:00 -2400\"", "\"01-Jan-2020 00:00:00 +9999\"",
                    "\"1-Jan-2020 00:00:00 +0000\"", "\"01-Jan-20 00:00:00 +0000\"", "\"01-Jan-2020 0:00:00 +0000\"", "\"01-Jan-2020 00:00:00 0000\"", "\"01-Jan-2020 00:00:00\"",
                    "\"01-Jan-2020 00:00:00 +000\"", "\"01-Jan-2020 00:00:00 +00000\"", "\"01-Foo-2020 00:00:00 +0000\"", "01-Jan-2020 00:00:00 +0000", "\"01-Jan-2020  00:00:00 +0000\"",
                    "\"01-Jan-2020 00:00 +0000\"", "\"01-Jan-2020T00:00:00 +0000\"", "\"01-Jan-2020 00:00:00 GMT\"", "\"  -Jan-2020 00:00:00 +0000\"", "\" 0-Jan-2020 00:00:00 +0000\"",
                    "\" 12-Jan-2020 00:00:00 +0000\"", "\"  1-Jan-2020 00:00:00 +0000\"", "\"001-Jan-2020 00:00:00 +0000\"", "\"1 -Jan-2020 00:00:00 +0000\"", "\"01-Jan-2020 00:00:00.5 +0000\"",
                    "\"01-Jan-2020 00:00:60 +0000\"", "\"01-Jan-2020  0:00:00 +0000\"", "\"01-Jan-2020 00:00:00+0000\"", "\"01-Jan-2020 00:00:00 +0000\"\"", "\"01-Jan-2020 00:00:00 +0000 \"", "NIL",
                    "\"01-Jan-2020 00:00:00 +00:0\"", "\"+1-Jan-2020 00:00:00 +0000\"", "\"01-Jan-20200 00:00:00 +0000\"",
                ],
            ),
        ),
        M::Inside => ("inside of a list", pick(r, &["", "", " ", "()", "(", ")"])),
        M::Addresses => {
            if cfg!(feature = "q_spaces_between_addresses") && r.bool() {
                return None;
            }
            ("address list", pick(r, &["\"x\"", "()", "NI", "(NIL)", "xyz", "((NIL NIL NIL NIL)", "(NIL NIL NIL NIL)", "((NIL NIL NIL))", "((NIL NIL NIL NIL NIL))", "((NIL NIL NIL NIL)NIL)", "((NIL NIL NIL NIL ))", "((NIL NIL NIL NIL) )", "{1}\r\nx", "((a NIL NIL NIL))", "1"]))
        }
        M::Params => ("parameter list", pick(r, &["\"x\"", "(\"a\")", "(\"a\" NIL)", "(\"a\" \"b\" \"c\")", "xyz", "(a b)", "(NIL)", "((\"a\" \"b\"))", "(\"a\" \"b\" )", "(\"a\"  \"b\")", "1", "{1}\r\nx"])),
        M::Disposition => ("disposition", pick(r, &["\"x\"", "(\"x\")", "(NIL NIL)", "(\"x\" \"y\")", "()", "xyz", "(\"x\" NIL NIL)", "(x NIL)", "(\"x\" (\"a\"))", "1"])),
        M::Languages => ("languages", pick(r, &["()", "xyz", "(NIL)", "1", "(a)", "(\"a\" NIL)", "(\"a\" )", "((\"a\"))", "(\"a\"\"b\")"])),
        M::Namespaces => ("namespaces", pick(r, &["\"x\"", "()", "(\"a\")", "((\"a\"))", "((\"a\" ))", "xyz", "(\"a\" \"/\")", "((\"a\" \"/\") )", "((NIL NIL))", "((\"a\" \"/\" \"x\"))", "((\"a\" \"/\" \"x\" ()))", "((\"a\" \"/\" \"x\" \"y\"))", "((a NIL))"])),
        M::IdParams => ("ID parameters", pick(r, &["\"x\"", "(\"a\")", "(\"a\" x)", "(NIL \"x\")", "xyz", "(\"a\" \"b\" \"c\")", "(a b)", "((\"a\" \"b\"))", "(\"a\"\"b\")", "1"])),
        M::Delim => ("delimiter", pick(r, &["\"\"", "\"//\"", "/", "'/'", "NI", "\"\\a\"", "\"\\\"", "()", "{1}\r\n/", "\"\"\"", "\"/", "\"\u{e4}\""])),
        M::Section => ("section", pick(r, &["MIME", "0", "1.0", "1.", ".1", "1..2", "TEXT.1", "1.FOO", "HEADER.FIELDS", "HEADER.FIELDS ()", "HEADER.FIELDS a", "1.HEADER.FIELDS.NOT", "1-2", "*", "1:2", "1.TEXT.2", "HEADER.TEXT", "4294967296", " 1", "1 ", "1.MIME.1", "HEADER.FIELDS(a)", "HEADER.FIELDS  (a)", "HEADERFIELDS (a)", "HEADER.FIELDS (a )", "HEADER.FIELDS (a(b)", "1.2.MIMES"])),
        M::BinSection => ("binary section", pick(r, &["TEXT", "HEADER", "MIME", "0", "1.", ".1", "1.TEXT", "1..2", "1.0", "1.MIME", "4294967296", " 1", "1 ", " ", "*", "1,2"])),
        M::UidSet => (
            "UID set",
            pick(r, &["*", "1:*", "*:1", "0", "", "1:", ":1", "1,,2", ",1", "1,", "1:2:3", "4294967296", "1:0", "0:1", "-1", "+1", "1.2", "1:-2", "1, 2", "1 :2", "x", "1,*", "$"]),
        ),
        M::RespText => {
            let k = pick(r, &["", "[", "[ALERT", "[ALERT]", "[ALERT] ", "[ALERT]text", "[ALERT]]", "[ALERT]\ttext", "t\u{e4}xt", "\u{7f}\u{80}", "[ALERT] [", "[ALERT] t\u{e4}xt", "t\0xt", "[ALERT\0"]);
            if k == b"[ALERT]" && cfg!(feature = "q_missing_text") || k == b"[ALERT] [" {
                return None;
            }
            ("response text", k)
        }
        M::Sp => {
            if cfg!(feature = "q_excessive_space_quota_resource") && is_quota(c) {
                return None;
            }
            if m.at + 1 == w.len() - 2 || lits.iter().any(|(o, n, _)| *o + *n == m.at + 1) {
                return None;
            }
            ("separator", pick(r, &["  ", "\t", "   "]))
        }
        M::Open => ("opening parenthesis", pick(r, &["", "((", "[", "("  ])),
        M::Close => {
            let k = pick(r, &["", "))", "]", " )"]);
            if k == b" )" && cfg!(feature = "q_trailing_space_id") && is_id(c) {
                return None;
            }
            ("closing parenthesis", k)
        }
        M::B64 => {
            let mut k = old.clone();
            match r.below(6) {
                0 => k.insert(r.below(k.len() + 1), *r.pick(b"*-_.%!@ \"\\")),
                1 => k.push(b'='),
                2 => k.push(b'A'),
                3 if k.len() > 1 => {
                    k.pop();
                }
                4 => k.insert(0, b'='),
                _ => k.extend_from_slice(b"===="),
            }
            // Removing the only pad character etc. may leave something that is still base64.
            if crate::wire::unb64(&k).is_some() || k == b"*" || k == b"=" {
                return None;
            }
            ("base64", k)
        }
        M::Tag => ("tag", pick(r, &["", "a+b", "(", "a(", "a\"", "\"a\"", "%", "a{", "\\a", "\x7fa", "a\x01", "ä"])),
        M::Quoted => {
            let mut k = old.clone();
            match r.below(5) {
                0 => {
                    // Unterminated: drop the final quote. The next quote on the wire would end it, so cut there.
                    k.pop();
                    let mut v = [&w[..m.at], &k[..]].concat();
                    v.extend_from_slice(b"\r\n");
                    return Some(("unterminated quoted string", "unterminated quoted string".into(), v));
                }
                1 => {
                    // Escape of something that is not a quoted-special.
                    let p = r.range(1, k.len() - 1);
                    if p > 1 && odd_backslashes(&k[1..p]) {
                        return None;
                    }
                    let esc: &[u8] = *r.pick(&[&b"\\a"[..], b"\\n", b"\\0", b"\\ ", b"\\)", b"\\'"]);
                    k.splice(p..p, esc.iter().copied());
                }
                2 => {
                    let p = r.range(1, k.len() - 1);
                    if p > 1 && odd_backslashes(&k[1..p]) {
                        return None;
                    }
                    let b = *r.pick(&[0u8, b'\r', b'\n', 0xff, 0xc3]);
                    k.insert(p, b);
                    if RELAXED || b == 0 && crate::cogen::EXT {
                        return None;
                    }
                }
                3 => {
                    // Text directly after the closing quote.
                    k.extend_from_slice(b"x");
                }
                _ => {
                    k[0] = b'\'';
                    let end = k.len() - 1;
                    k[end] = b'\'';
                    if k.iter().any(|b| b"\\\"(){ %*".contains(b)) || k.len() < 3 {
                        // fall through: still not a string
                    }
                    if !string_only(c, m) {
                        return None;
                    }
                }
            }
            ("quoted string", k)
        }
        M::Atom | M::ListAtom => {
            let mut k = old.clone();
            let p = r.range(1, k.len());
            let b: &[u8] = if m.kind == M::Atom { b"\"({\\%*\x7f\x01\x00\xe4" } else { b"\"({\\\x7f\x01\x00\xe4" };
            k.insert(p, *r.pick(b));
            ("atom", k)
        }
        M::Lit => {
            let i = old.iter().position(|b| *b == b'{').unwrap();
            let pre = &old[..i];
            let n = &old[i + 1..];
            let mut k = pre.to_vec();
            match r.below(7) {
                0 => k.extend_from_slice(b"{}"),
                1 => k.extend_from_slice(b"{+}"),
                2 => k.extend_from_slice(b"{-1}"),
                3 => k.extend_from_slice(b"{4294967296}"),
                4 => k.extend_from_slice(&[b"{ ", n].concat()),
                5 => k.extend_from_slice(&[b"{", &n[..n.len() - 1], b"++}"].concat()),
                _ => k.extend_from_slice(&[b"{", &n[..n.len() - 1], b"} "].concat()),
            }
            ("literal announcement", k)
        }
    };
    if new == old || new.is_empty() && (ANY_QUIRK && quirky_spaces(c) || m.at > 0 && w[m.at - 1] == b'[') {
        return None;
    }
    Some((name, format!("{name} {} -> {}", show(&old), show(&new)), rep(&new)))
}
fn odd_backslashes(b: &[u8]) -> bool {
    b.iter().rev().take_while(|c| **c == b'\\').count() % 2 == 1
}
/// Keywords that are one edit away from another keyword legal in the same place.
const KEYWORDS: &[&[u8]] = &[b"NO", b"OK"];
/// Keywords that are the beginning of another keyword, and may stand in its place.
const PREFIXES: &[&[u8]] = &[
    b"BODY", b"BINARY", b"RFC822", b"FLAGS", b"+FLAGS", b"-FLAGS", b"HEADER", b"HEADER.FIELDS", b"DELETED", b"GETQUOTA", b"QUOTA", b"NO", b"OK",
];

/// The message does not end in free text.
fn has_structured_end(c: &Case<Msg>) -> bool {
    match &c.value {
        Msg::Command(_) | Msg::Auth(_) | Msg::Idle(_) => true,
        Msg::Greeting(_) => false,
        Msg::Response(r) => matches!(r, imap_types::response::Response::Data(_)),
    }
}
/// Excessive spaces are rectified around the numbers of a quota.
fn is_quota(c: &Case<Msg>) -> bool {
    use imap_types::response::{Data, Response};
    matches!(&c.value, Msg::Response(Response::Data(Data::Quota { .. })))
}
/// Messages in which a quirk accepts additional spaces somewhere.
fn quirky_spaces(c: &Case<Msg>) -> bool {
    use imap_types::response::{Data, Response};
    matches!(&c.value, Msg::Response(Response::Data(Data::Quota { .. } | Data::Fetch { .. } | Data::Search(..) | Data::Status { .. } | Data::Capability(_))))
        || is_id(c)
}
#[cfg(feature = "ext")]
fn is_id(c: &Case<Msg>) -> bool {
    use imap_types::response::{Data, Response};
    use imap_types::command::{Command, CommandBody};
    matches!(&c.value, Msg::Response(Response::Data(Data::Id { .. })) | Msg::Command(Command { body: CommandBody::Id { .. }, .. }))
}
#[cfg(not(feature = "ext"))]
fn is_id(_: &Case<Msg>) -> bool {
    false
}
/// At this place only strings (no atoms) are allowed.
fn string_only(_c: &Case<Msg>, _m: Mark) -> bool {
    false
}

pub fn code_of(m: &Msg) -> Option<&imap_types::response::Code<'static>> {
    use imap_types::response::{Bye, CommandContinuationRequest as C, Response, Status};
    match m {
        Msg::Greeting(g) => g.code.as_ref(),
        Msg::Response(Response::Status(Status::Bye(Bye { code, .. }))) => code.as_ref(),
        Msg::Response(Response::Status(Status::Untagged(b))) => b.code.as_ref(),
        Msg::Response(Response::Status(Status::Tagged(t))) => t.body.code.as_ref(),
        Msg::Response(Response::CommandContinuationRequest(C::Basic(b))) => b.code(),
        _ => None,
    }
}
/// A malformed response code is kept verbatim as an unknown one, if it is accepted at all.
fn broken_code(ctx: &mut Ctx, r: &mut Rng, c: &Case<Msg>) {
    let Some((at, _)) = c.code_at else { return };
    // The text of a referral may begin with spaces.
    if c.canon.bytes()[at..].starts_with(b"REFERRAL ") {
        return;
    }
    let Some((name, what, bad)) = pick_mark(r, &c.code_marks).and_then(|m| break_mark(r, c, m)) else { return };
    ctx.current = bad.clone();
    ctx.eval(&bad);
    ctx.c("response-codes");
    ctx.c(name);
    if let Dec::Ok { msg, .. } = decode(c.value.kind(), &bad) {
        let text: Vec<u8> = bad[at..].iter().copied().take_while(|b| *b != b']').collect();
        let want = imap_types::response::CodeOther::unvalidated(text);
        let got = code_of(&msg);
        ctx.check(matches!(got, Some(imap_types::response::Code::Other(o)) if *o == want), "malformed response code is not kept as it is", &bad, || format!("{what}\n{got:?}\nwant {want:?}"));
        ctx.c("response-codes-kept");
    }
}

fn c07(ctx: &mut Ctx, seed: u64) {
    let mut r = Rng::new(seed ^ 0x6272);
    let c = any(seed);
    broken_code(ctx, &mut r, &c);
    crate::p_neg::negatives(ctx, &mut r);
    for _ in 0..4 {
        let Some((name, what, bad)) = break_it(&mut r, &c) else {
            continue;
        };
        ctx.current = bad.clone();
        ctx.eval(&bad);
        ctx.c(name);
        if let Dec::Ok { rem, msg } = decode(c.value.kind(), &bad) {
            ctx.fail(
                "malformed message is accepted",
                format!("{what}\nvalid  {}\nbroken {}\ndecoded as {:?} remainder {}", show(&c.canon.bytes()), show(&bad), msg, show(&rem)),
                &bad,
            );
        }
    }
}

// ----- C08, C09 -----

fn splits(r: &mut Rng, len: usize, lits: &[(usize, usize, LiteralMode)]) -> Vec<usize> {
    if len <= 600 {
        return (0..len).collect();
    }
    let mut v: Vec<usize> = (0..200).map(|_| r.below(len)).collect();
    v.extend(0..100);
    v.extend(len - 60..len);
    for (o, n, _) in lits {
        for d in [*o, *o + *n] {
            for x in d.saturating_sub(4)..(d + 4).min(len) {
                v.push(x);
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

fn c08(ctx: &mut Ctx, seed: u64) {
    let mut r = Rng::new(seed ^ 0x7370);
    let c = any(seed);
    ctx.merge(&c.cov);
    let w = c.styled.bytes();
    let kind = c.value.kind();
    ctx.eval(&w);
    for p in splits(&mut r, w.len(), &c.styled.literals()) {
        ctx.current = w[..p].to_vec();
        let d = decode(kind, &w[..p]);
        ctx.tick();
        ctx.c("prefixes");
        if !matches!(d, Dec::Incomplete | Dec::Literal { .. }) {
            ctx.fail(
                "prefix of a valid message does not ask for more",
                format!("prefix of {p} of {} bytes gives {:?}; whole message {}", w.len(), d, show(&w)),
                &w[..p],
            );
        }
    }
    let mut extras: Vec<Vec<u8>> = vec![b"\r\n".to_vec(), b"x".to_vec(), b"\n".to_vec(), b" ".to_vec(), w.clone()];
    extras.push(any(seed.wrapping_add(12345)).canon.bytes());
    extras.push(crate::cogen::G::new(seed, false).raw_literal(true));
    extras.push(vec![]);
    for x in extras {
        let all = [&w[..], &x].concat();
        ctx.current = all.clone();
        ctx.tick();
        ctx.c("extensions");
        match decode(kind, &all) {
            Dec::Ok { rem, msg } => {
                ctx.check(rem == x, "wrong remainder", &all, || format!("got {} want {}", show(&rem), show(&x)));
                ctx.same(&msg, &c.value, "following bytes change the message", &all);
            }
            other => ctx.fail("following bytes break decoding", format!("{} when followed by {}", other.name(), show(&x)), &all),
        }
    }
}

fn c09(ctx: &mut Ctx, seed: u64) {
    let mut r = Rng::new(seed ^ 0x6c69);
    // Prefer messages with literals.
    let mut c = any(seed);
    for k in 1..6u64 {
        if !c.styled.literals().is_empty() {
            break;
        }
        c = any(seed.wrapping_add(k * 1_000_003));
    }
    ctx.merge(&c.cov);
    let w = c.styled.bytes();
    let lits = c.styled.literals();
    let kind = c.value.kind();
    ctx.eval(&w);
    let tag = match &c.value {
        Msg::Command(cmd) => Some(cmd.tag.clone()),
        _ => None,
    };
    for p in splits(&mut r, w.len(), &lits) {
        ctx.current = w[..p].to_vec();
        let d = decode(kind, &w[..p]);
        ctx.tick();
        let want = match lits.iter().find(|(o, _, _)| *o == p) {
            Some((_, n, mode)) => {
                ctx.c("literal-boundaries");
                Dec::Literal {
                    tag: tag.clone(),
                    length: *n as u32,
                    mode: tag.as_ref().map(|_| *mode),
                }
            }
            None => {
                ctx.c("other-splits");
                Dec::Incomplete
            }
        };
        if d != want {
            ctx.fail(
                "literal is not reported exactly at its boundary",
                format!("after {p} of {} bytes: got {d:?} want {want:?}; message {}", w.len(), show(&w)),
                &w[..p],
            );
        }
    }
    // The announced length may be anything: the data has not arrived.
    for (p, _, mode) in lits.iter().take(12) {
        let mut v = w[..*p].to_vec();
        if let Some(n) = crate::mutate::reannounce(&mut r, &mut v) {
            ctx.tick();
            ctx.c("other-lengths");
            ctx.current = v.clone();
            let d = decode(kind, &v);
            let want = Dec::Literal {
                tag: tag.clone(),
                length: n,
                mode: tag.as_ref().map(|_| *mode),
            };
            ctx.check(d == want, "announced length is not reported", &v, || format!("got {d:?} want {want:?}"));
        }
    }
}

// ----- C10 -----

pub fn check_fragments(ctx: &mut Ctx, frags: &[Fragment], whole: &[u8], literals: &[(Vec<u8>, LiteralMode)]) {
    let mut got = Vec::new();
    let mut prev: Option<&[u8]> = None;
    for f in frags {
        match f {
            Fragment::Line { data } => {
                ctx.check(!data.is_empty(), "empty line fragment", whole, || format!("{frags:?}"));
                prev = Some(data);
            }
            Fragment::Literal { data, mode } => {
                let ann = format!("{{{}{}}}\r\n", data.len(), if *mode == LiteralMode::NonSync { "+" } else { "" });
                let ok = prev.is_some_and(|p| p.ends_with(ann.as_bytes()));
                ctx.check(ok, "literal fragment without matching announcement", whole, || {
                    format!("literal of {} bytes, mode {mode:?}, after line {:?}", data.len(), prev.map(show))
                });
                got.push((data.clone(), *mode));
                prev = None;
            }
        }
    }
    ctx.check(prev.is_some_and(|p| p.ends_with(b"\r\n")), "message does not end with a CRLF line", whole, || {
        format!("last fragment {:?}", frags.last())
    });
    ctx.check(got == literals, "literal fragments are not the message's literals", whole, || {
        format!("got {got:?}\nwant {literals:?}")
    });
}

fn c10(ctx: &mut Ctx, seed: u64) {
    let c = any(seed);
    ctx.merge(&c.cov);
    let want = c.canon.bytes();
    ctx.current = want.clone();
    let frags = c.value.fragments();
    let nlit = frags.iter().filter(|f| matches!(f, Fragment::Literal { .. })).count();
    if nlit == 0 {
        ctx.tick();
    } else {
        ctx.eval(&want);
        ctx.cn("literal-fragments", nlit as u64);
    }
    let whole = c.value.dump();
    let cat = concat(&frags);
    ctx.check(cat == whole, "fragments do not concatenate to the message", &want, || format!("fragments {} dump {}", show(&cat), show(&whole)));
    let lits: Vec<_> = c
        .canon
        .segs
        .iter()
        .filter_map(|s| match s {
            crate::wire::Seg::Lit { data, mode } => Some((data.clone(), *mode)),
            _ => None,
        })
        .collect();
    check_fragments(ctx, &frags, &want, &lits);
    // Consuming part of it and dumping the rest gives the rest; a copy taken on the way goes on by itself.
    for k in 0..=frags.len().min(6) {
        let mut e = c.value.encoded();
        for i in 0..k {
            let f = e.next();
            ctx.check(f.as_ref() == frags.get(i), "iteration is not stable", &want, || format!("{f:?}"));
        }
        let mut copy = e.clone();
        if k % 2 == 0 {
            let rest: Vec<Fragment> = copy.by_ref().collect();
            ctx.check(rest == frags[k..], "a copy taken during iteration differs", &want, || format!("{rest:?}"));
            ctx.check(copy.next().is_none() && copy.dump().is_empty(), "fragments after the end", &want, String::new);
            ctx.c("copies");
        } else {
            let rest = copy.dump();
            ctx.check(rest == concat(&frags[k..]), "a copy taken during iteration differs", &want, || show(&rest));
        }
        let rest = e.dump();
        ctx.check(rest == concat(&frags[k..]), "dump after partial iteration loses data", &want, || show(&rest));
    }
    let _ = (decode_static as fn(Kind, &[u8]) -> Dec, G::new as fn(u64, bool) -> G);
}
