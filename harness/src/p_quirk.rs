//! C23: each quirk option against generated messages that deviate at the documented place.
use imap_types::response::Response;

use crate::{
    Prop,
    cogen::{Dev, G, NORM, RELAXED},
    ctx::Ctx,
    msg::{Dec, Msg, decode},
    p_codec,
    rng::{Rng, mix},
    wire::{Seg, show},
};

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C23", fixed: None, case: c23, quick: 400000, thorough: 6_000_000 }]
}

fn on(d: Dev) -> bool {
    match d {
        Dev::MissingText => cfg!(feature = "q_missing_text"),
        Dev::NegativeOctets => cfg!(feature = "q_rectify_numbers"),
        Dev::QuotaSpace => cfg!(feature = "q_excessive_space_quota_resource"),
        Dev::StatusSpace => cfg!(feature = "q_trailing_space_status"),
        Dev::CapabilitySpace => cfg!(feature = "q_trailing_space_capability"),
        Dev::IdSpace => cfg!(feature = "q_trailing_space_id"),
        Dev::SearchSpace => cfg!(feature = "q_trailing_space_search"),
        Dev::AddressSpace => cfg!(feature = "q_spaces_between_addresses"),
        Dev::EmptyContinue => cfg!(feature = "q_empty_continue_req"),
        Dev::NilEncoding => cfg!(feature = "q_body_fld_enc_nil_to_empty"),
    }
}

const DEVS: &[Dev] = &[
    Dev::MissingText,
    Dev::NegativeOctets,
    Dev::QuotaSpace,
    Dev::StatusSpace,
    Dev::CapabilitySpace,
    #[cfg(feature = "ext")]
    Dev::IdSpace,
    Dev::SearchSpace,
    Dev::AddressSpace,
    Dev::EmptyContinue,
    Dev::NilEncoding,
];

fn build(g: &mut G, d: Dev) -> Msg {
    let data = |g: &mut G, k| Msg::Response(Response::Data(g.data(Some(k))));
    match d {
        Dev::MissingText => match g.r.below(4) {
            0 => Msg::Greeting(g.greeting()),
            1 => Msg::Response(Response::CommandContinuationRequest(g.continuation())),
            _ => Msg::Response(Response::Status(g.status())),
        },
        Dev::NegativeOctets | Dev::NilEncoding | Dev::AddressSpace => {
            // FETCH with one item of the right kind.
            use imap_types::{core::Vec1, fetch::MessageDataItem, response::Data};
            g.s("* ");
            let seq = g.nz();
            g.s(" ");
            g.kw("FETCH");
            g.s(" (");
            let item = if d == Dev::AddressSpace && g.r.bool() {
                g.kw("ENVELOPE");
                g.s(" ");
                MessageDataItem::Envelope(g.envelope())
            } else if g.r.bool() {
                g.kw("BODYSTRUCTURE");
                g.s(" ");
                MessageDataItem::BodyStructure(g.body_structure(3, false))
            } else {
                g.kw("BODY");
                g.s(" ");
                MessageDataItem::Body(g.body_structure(3, true))
            };
            g.s(")");
            g.crlf();
            Msg::Response(Response::Data(Data::Fetch { seq, items: Vec1::from(item) }))
        }
        Dev::QuotaSpace => data(g, 12),
        Dev::StatusSpace => data(g, 3),
        Dev::CapabilitySpace => data(g, 0),
        Dev::SearchSpace => data(g, 4),
        Dev::IdSpace => data(g, 14),
        Dev::EmptyContinue => Msg::Response(Response::CommandContinuationRequest(g.continuation())),
    }
}

fn deviating(ctx: &mut Ctx, seed: u64) {
    let d = *Rng::new(seed ^ 0xd17).pick(DEVS);
    for k in 0..40 {
        let s = mix(seed ^ k);
        // The canonical wire denotes the normalised value.
        let mut g = G::new(s, seed & 1 == 0);
        g.dev = Some(d);
        let want = build(&mut g, d);
        if g.devs == 0 {
            continue;
        }
        let wire = if seed & 1 == 0 { g.canon.bytes() } else { g.styled.bytes() };
        ctx.current = wire.clone();
        ctx.eval(&wire);
        let got = decode(want.kind(), &wire);
        if on(d) {
            ctx.c(&format!("rectified:{d:?}"));
            match got {
                Dec::Ok { rem, msg } => {
                    ctx.check(rem.is_empty(), "rectified message leaves a remainder", &wire, || show(&rem));
                    ctx.same(&msg, &want, "deviation rectified to something else", &wire);
                }
                o => ctx.fail("documented deviation is not rectified", format!("{d:?}: {} want {want:?}", o.name()), &wire),
            }
            // No more than documented.
            if let Some(more) = overdone(d, &wire) {
                ctx.c("more-than-documented");
                let o = decode(want.kind(), &more);
                ctx.check(!o.is_ok(), "more than the documented deviation is accepted", &more, || format!("{d:?}: {o:?}"));
            }
        } else {
            ctx.c(&format!("rejected:{d:?}"));
            ctx.check(!got.is_ok(), "deviation is accepted although its option is off", &wire, || format!("{d:?}: {got:?}"));
        }
        return;
    }
    ctx.tick();
}

/// The same deviation taken further than the option documents.
fn overdone(d: Dev, w: &[u8]) -> Option<Vec<u8>> {
    let n = w.len();
    let cut = |at: usize, s: &[u8]| {
        let mut v = w[..at].to_vec();
        v.extend_from_slice(s);
        v.extend_from_slice(&w[at..]);
        Some(v)
    };
    match d {
        // `[CODE] ` CRLF: a space but still no text.
        Dev::MissingText | Dev::StatusSpace | Dev::CapabilitySpace | Dev::SearchSpace => cut(n - 2, b" "),
        Dev::IdSpace => cut(n - 3, b" "),
        Dev::EmptyContinue => cut(1, b"+"),
        _ => None,
    }
}

fn line_ends(ctx: &mut Ctx, seed: u64) {
    let c = p_codec::any(seed);
    let mut r = Rng::new(seed ^ 0xc21f);
    let (wire, want) = if r.bool() { (&c.canon, &c.normed) } else { (&c.styled, &c.value) };
    let mut out = Vec::new();
    let mut dropped = 0;
    let all = r.bool();
    let n = wire.segs.iter().filter(|s| matches!(s, Seg::Bytes(_))).count();
    let one = r.below(n.max(1));
    let mut k = 0;
    for s in &wire.segs {
        match s {
            Seg::Bytes(b) => {
                if b.ends_with(b"\r\n") && (all || k == one) {
                    out.extend_from_slice(&b[..b.len() - 2]);
                    out.push(b'\n');
                    dropped += 1;
                } else {
                    out.extend_from_slice(b);
                }
                k += 1;
            }
            Seg::Lit { data, .. } => out.extend_from_slice(data),
        }
    }
    if dropped == 0 {
        ctx.tick();
        return;
    }
    ctx.current = out.clone();
    ctx.eval(&out);
    let got = decode(c.value.kind(), &out);
    if RELAXED {
        ctx.c("rectified:line-end");
        match got {
            Dec::Ok { rem, msg } => {
                ctx.check(rem.is_empty(), "message with LF line end leaves a remainder", &out, || show(&rem));
                ctx.same(&msg, want, "message with LF line end decodes to something else", &out);
            }
            o => ctx.fail("LF line end is not accepted", format!("{} want {want:?}", o.name()), &out),
        }
    } else {
        ctx.c("rejected:line-end");
        ctx.check(!got.is_ok(), "LF line end is accepted although its option is off", &out, || format!("{got:?}"));
    }
}

fn conforming(ctx: &mut Ctx, seed: u64) {
    let c = p_codec::any(seed);
    let wire = c.styled.bytes();
    ctx.current = wire.clone();
    ctx.eval(&wire);
    ctx.c("conforming");
    match decode(c.value.kind(), &wire) {
        Dec::Ok { rem, msg } => {
            ctx.check(rem.is_empty(), "conforming message leaves a remainder", &wire, || show(&rem));
            ctx.same(&msg, &c.value, "conforming message decodes to something else", &wire);
        }
        o => ctx.fail("conforming message is not decoded", format!("{} want {:?}", o.name(), c.value), &wire),
    }
    // Quirks of the encoder: normalised sequence sets, `ID ()` as NIL.
    let (got, want) = (c.value.dump(), c.canon.bytes());
    ctx.check(got == want, "encoder quirk: wrong wire form", &want, || format!("got {}\nvalue {:?}", show(&got), c.value));
}

fn encoder(ctx: &mut Ctx, seed: u64) {
    use imap_types::command::{Command, CommandBody};
    let mut r = Rng::new(seed);
    // Commands carrying sequence sets.
    let c = crate::cogen::case(seed, |g| Msg::Command(g.command(None)));
    let has = matches!(
        &c.value,
        Msg::Command(Command { body: CommandBody::Fetch { .. } | CommandBody::Store { .. } | CommandBody::Copy { .. } | CommandBody::Move { .. } | CommandBody::Search { .. } | CommandBody::ExpungeUid { .. }, .. })
    );
    if has {
        ctx.c(if NORM { "sets-normalised" } else { "sets-verbatim" });
    }
    let want = c.canon.bytes();
    ctx.current = want.clone();
    ctx.eval(&want);
    let got = c.value.dump();
    ctx.check(got == want, "encoder quirk: wrong wire form", &want, || format!("got {}\nvalue {:?}", show(&got), c.value));
    #[cfg(feature = "ext")]
    {
        use imap_types::response::Data;
        let nil = cfg!(feature = "q_id_empty_to_nil");
        let m = if r.bool() {
            (Msg::Command(Command::new("A1", CommandBody::Id { parameters: Some(vec![]) }).unwrap()), "A1 ID ")
        } else {
            (Msg::Response(Response::Data(Data::Id { parameters: Some(vec![]) })), "* ID ")
        };
        let want = format!("{}{}\r\n", m.1, if nil { "NIL" } else { "()" }).into_bytes();
        let got = m.0.dump();
        ctx.check(got == want, "encoder quirk: wrong form of an empty ID list", &want, || show(&got));
    }
    let _ = &mut r;
}

/// Deviations at places where no option documents them, and of kinds that no option documents.
fn misplaced(ctx: &mut Ctx, seed: u64) {
    let mut r = Rng::new(seed ^ 0x3315);
    let c = p_codec::any(seed);
    for _ in 0..3 {
        let Some((_, what, bad)) = p_codec::break_it(&mut r, &c) else {
            ctx.tick();
            continue;
        };
        ctx.c("undocumented-deviation");
        ctx.current = bad.clone();
        ctx.eval(&bad);
        let got = decode(c.value.kind(), &bad);
        ctx.check(!got.is_ok(), "an undocumented deviation is accepted", &bad, || format!("{what}: {got:?}"));
    }
}

fn c23(ctx: &mut Ctx, seed: u64) {
    match seed % 9 {
        8 => misplaced(ctx, seed >> 3),
        0..=4 => deviating(ctx, seed >> 3),
        5 => line_ends(ctx, seed >> 3),
        6 => conforming(ctx, seed >> 3),
        _ => encoder(ctx, seed >> 3),
    }
}
