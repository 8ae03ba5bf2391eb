//! C31: whole sessions. A client and a server, both built on the codec, talk over two byte pipes.
//! The pipes deliver in random pieces, both sides take their steps in a random order, and a trace
//! checker looks at what either side believes to have received.
use std::collections::VecDeque;

use imap_codec::{
    encode::Fragment,
    fragmentizer::{FragmentInfo, Fragmentizer},
};
use imap_types::{
    command::{Command, CommandBody},
    core::{LiteralMode, Tag},
    response::{CommandContinuationRequest, Response, Status, Tagged},
};

use crate::{
    Prop,
    cogen::Case,
    ctx::Ctx,
    msg::{Dec, Kind, Msg, decode},
    p_codec,
    p_frag::{Out, ambiguous, decode_message},
    rng::Rng,
    wire::show,
};

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C31", fixed: None, case: c31, quick: 40_000, thorough: 1_500_000 }]
}

/// One side's view of the bytes it received.
struct Recv {
    how: How,
    /// When all received bytes were looked at, wait for more: what was not reported until then is
    /// never asked for again, which is how a program that blocks on its socket behaves.
    blocking: bool,
    dry: bool,
}
/// How one side takes messages out of the bytes it received.
enum How {
    /// Try to decode the buffer again and again; remember at which length a literal was asked for.
    Buf { buf: Vec<u8>, asked: usize, found: bool },
    Frag(Fragmentizer),
}
enum Ev {
    Msg(Box<Msg>),
    /// A literal was announced (decoder: only seen when nothing follows).
    Announced { tag: Option<Tag<'static>>, length: u32, mode: Option<LiteralMode> },
    Other { tag: Option<Tag<'static>>, what: Out },
    Nothing,
}
impl Recv {
    fn feed(&mut self, b: &[u8]) {
        self.dry = false;
        match &mut self.how {
            How::Buf { buf, .. } => buf.extend_from_slice(b),
            How::Frag(f) => f.enqueue_bytes(b),
        }
    }
    fn poll(&mut self, kind: Kind) -> Ev {
        if self.dry {
            return Ev::Nothing;
        }
        let ev = self.how.poll(kind);
        self.dry = self.blocking && matches!(ev, Ev::Nothing);
        ev
    }
    /// The peer was told that its literal is refused.
    fn refuse(&mut self) {
        self.dry = false;
        match &mut self.how {
            How::Buf { buf, asked, found } => {
                buf.clear();
                *asked = 0;
                *found = false;
            }
            How::Frag(f) => f.skip_message(),
        }
    }
}
impl How {
    fn poll(&mut self, kind: Kind) -> Ev {
        match self {
            How::Buf { buf, asked, found } => {
                if buf.is_empty() {
                    return Ev::Nothing;
                }
                match decode(kind, buf) {
                    Dec::Ok { rem, msg } => {
                        *buf = rem;
                        *asked = 0;
                        *found = false;
                        Ev::Msg(Box::new(msg))
                    }
                    Dec::Literal { tag, length, mode } => {
                        if *found && *asked == buf.len() {
                            return Ev::Nothing;
                        }
                        *found = true;
                        *asked = buf.len();
                        Ev::Announced { tag, length, mode }
                    }
                    Dec::Incomplete => Ev::Nothing,
                    Dec::Failed => Ev::Other { tag: None, what: Out::Dec(Dec::Failed) },
                }
            }
            How::Frag(f) => {
                while let Some(i) = f.progress() {
                    if let FragmentInfo::Line { announcement: Some(a), .. } = i {
                        return Ev::Announced { tag: f.decode_tag().map(own), length: a.length, mode: Some(a.mode) };
                    }
                    if f.is_message_complete() {
                        return match decode_message(f, kind) {
                            Out::Dec(Dec::Ok { rem, msg }) if rem.is_empty() => Ev::Msg(Box::new(msg)),
                            what => Ev::Other { tag: f.decode_tag().map(own), what },
                        };
                    }
                }
                Ev::Nothing
            }
        }
    }
}
fn own(t: Tag) -> Tag<'static> {
    use bounded_static::IntoBoundedStatic;
    t.into_static()
}

fn until<T>(seed: &mut u64, from: fn(u64) -> Case<Msg>, f: impl Fn(&Case<Msg>) -> Option<T>) -> T {
    loop {
        *seed = seed.wrapping_add(0x9e37_79b9_7f4a_7c15);
        if let Some(x) = f(&from(*seed)) {
            return x;
        }
    }
}
fn data(seed: &mut u64) -> (Msg, Msg) {
    until(seed, p_codec::server, |c| match &c.value {
        Msg::Response(Response::Data(_)) => Some((c.value.clone(), c.normed.clone())),
        Msg::Response(Response::Status(Status::Untagged(_))) if !ambiguous(c) => Some((c.value.clone(), c.normed.clone())),
        _ => None,
    })
}
fn tagged(seed: &mut u64, tag: &Tag<'static>) -> (Msg, Msg) {
    let set = |m: &Msg| match m {
        Msg::Response(Response::Status(Status::Tagged(t))) => Some(Msg::Response(Response::Status(Status::Tagged(Tagged { tag: tag.clone(), body: t.body.clone() })))),
        _ => None,
    };
    until(seed, p_codec::server, |c| if ambiguous(c) { None } else { Some((set(&c.value)?, set(&c.normed)?)) })
}
fn go_ahead(seed: &mut u64, r: &mut Rng) -> (Msg, Msg) {
    if r.chance(1, 3) {
        let m = Msg::Response(Response::CommandContinuationRequest(CommandContinuationRequest::basic(None, "go ahead").unwrap()));
        return (m.clone(), m);
    }
    until(seed, p_codec::server, |c| match &c.value {
        Msg::Response(Response::CommandContinuationRequest(_)) if !ambiguous(c) => Some((c.value.clone(), c.normed.clone())),
        _ => None,
    })
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Want {
    Command,
    Auth,
    Idle,
}

/// A command that no server knows, with or without a literal that looks like commands.
fn malformed(r: &mut Rng, tag: &Tag) -> Vec<Fragment> {
    let t = tag.as_ref();
    let line = |s: String| Fragment::Line { data: s.into_bytes() };
    let lit: &[u8] = *r.pick(&[&b"A1 NOOP\r\nA2 LOGOUT\r\n"[..], b"", b"x {3}\r\n", b"\n", b"\r\n\r\n", b"DONE\r\n"]);
    let n = lit.len();
    match r.below(4) {
        0 => vec![line(format!("{t} XYZZY\r\n"))],
        1 => vec![line(format!("{t} XYZZY x\n"))],
        2 => vec![line(format!("{t} XYZZY {{{n}}}\r\n")), Fragment::Literal { data: lit.to_vec(), mode: LiteralMode::Sync }, line(" y\r\n".into())],
        _ => vec![line(format!("{t} XYZZY z {{{n}+}}\r\n")), Fragment::Literal { data: lit.to_vec(), mode: LiteralMode::NonSync }, line("\r\n".into())],
    }
}

/// What the client does next.
#[derive(PartialEq, Debug)]
enum State {
    Greeting,
    Ready,
    /// Inside of an exchange: the command was sent; answers to continuation requests follow.
    Exchange(Want),
}

struct Client {
    state: State,
    recv: Recv,
    /// Commands to send: value, as it should arrive, and its kind.
    script: VecDeque<(Command<'static>, Vec<Fragment>)>,
    /// Fragments of the command that is being sent, last first.
    sending: Vec<Fragment>,
    current: Option<Tag<'static>>,
    waiting: bool,
    outstanding: Vec<Tag<'static>>,
    got: usize,
}
struct Server {
    want: Want,
    recv: Recv,
    rounds: usize,
    tag: Option<Tag<'static>>,
    greeted: bool,
    refuses: bool,
    poisoned: bool,
    /// Messages (as they should arrive).
    sent: Vec<Msg>,
    announced: u64,
}

fn c31(ctx: &mut Ctx, seed: u64) {
    let mut r = Rng::new(seed ^ 0x7365_7373);
    let mut sd = seed.wrapping_mul(0x2545_F491_4F6C_DD1D) ^ 0x51;
    let mut script = VecDeque::new();
    let mut plan: Vec<(Command<'static>, bool, usize)> = vec![];
    for n in 0..r.range(1, 7) {
        let special = r.below(6);
        let with_literal = r.bool();
        let (mut v, mut w) = until(&mut sd, p_codec::client, |c| match (&c.value, &c.normed) {
            (Msg::Command(v), Msg::Command(w)) => {
                let is = matches!(v.body, CommandBody::Authenticate { .. } | CommandBody::Idle);
                if special == 0 && !is {
                    // Few of the generated commands start an exchange.
                    if matches!(v.body, CommandBody::Noop) {
                        return Some((Command { tag: v.tag.clone(), body: CommandBody::Idle }, Command { tag: v.tag.clone(), body: CommandBody::Idle }));
                    }
                    return None;
                }
                if special != 0 && with_literal && c.canon.literals().is_empty() {
                    return None;
                }
                Some((v.clone(), w.clone()))
            }
            _ => None,
        });
        // Answers are attributed by tag.
        let tag = Tag::try_from(format!("{}{n}", v.tag.as_ref())).unwrap();
        v.tag = tag.clone();
        w.tag = tag;
        let bad = r.chance(1, 10);
        let fragments = if bad { malformed(&mut r, &v.tag) } else { Msg::Command(v.clone()).fragments() };
        plan.push((w, bad, crate::msg::concat(&fragments).len()));
        script.push_back((v, fragments));
    }
    let sizes = plan.iter().map(|p| p.2).max().unwrap();
    let limit = *r.pick(&[0u32, sizes as u32, (sizes - 1) as u32, 200, 60]);
    let any_bad = plan.iter().any(|p| p.1);
    let recv = |r: &mut Rng, limit: u32, bad: bool| {
        let how = match r.below(2) {
            // Without framing there is no way to tell where a malformed message ends.
            0 if !bad => How::Buf { buf: vec![], asked: 0, found: false },
            _ if limit > 0 => How::Frag(Fragmentizer::new(limit)),
            _ => How::Frag(Fragmentizer::without_max_message_size()),
        };
        Recv { how, blocking: r.bool(), dry: false }
    };
    let mut cl = Client { state: State::Greeting, recv: recv(&mut r, 0, false), script, sending: vec![], current: None, waiting: false, outstanding: vec![], got: 0 };
    let mut sv = Server { want: Want::Command, recv: recv(&mut r, limit, any_bad), rounds: 0, tag: None, greeted: false, refuses: r.bool(), poisoned: false, sent: vec![], announced: 0 };
    let limited = limit > 0 && matches!(sv.recv.how, How::Frag(_));
    let pipelining = r.bool();
    let mut c2s: VecDeque<u8> = VecDeque::new();
    let mut s2c: VecDeque<u8> = VecDeque::new();
    let mut log: Vec<u8> = vec![];
    // What must arrive at the server: answers of the client within exchanges.
    let mut answers: VecDeque<Msg> = VecDeque::new();
    let mut next_command = 0;
    let mut refused: Vec<Tag<'static>> = vec![];
    let mut idle = 0;
    let mut steps = 0u64;
    macro_rules! bail {
        ($sig:expr, $($t:tt)*) => {{
            let d = format!($($t)*);
            ctx.fail($sig, format!("{d}\nserver expects {:?}, client {:?} waiting {}\nsession {}", sv.want, cl.state, cl.waiting, show(&log)), &log);
            return;
        }};
    }
    macro_rules! send {
        ($m:expr) => {{
            let (v, w): (Msg, Msg) = $m;
            let b = v.dump();
            log.extend_from_slice(b"\nS: ");
            log.extend_from_slice(&b);
            s2c.extend(b);
            sv.sent.push(w);
        }};
    }
    loop {
        steps += 1;
        if steps > 3_000_000 {
            bail!("session does not come to an end", "{steps} steps");
        }
        let mut did = false;
        match r.below(4) {
            // Delivery.
            0 | 1 => {
                let (pipe, to) = if r.bool() { (&mut c2s, &mut sv.recv) } else { (&mut s2c, &mut cl.recv) };
                if !pipe.is_empty() {
                    let n = match r.below(6) {
                        0 => 1,
                        1 => 3,
                        2 | 3 => pipe.len(),
                        _ => 40,
                    };
                    let b: Vec<u8> = pipe.drain(..n.min(pipe.len())).collect();
                    to.feed(&b);
                    did = true;
                }
            }
            // The server.
            2 => {
                if !sv.greeted {
                    sv.greeted = true;
                    did = true;
                    send!(until(&mut sd, p_codec::server, |c| if ambiguous(c) || !matches!(c.value, Msg::Greeting(_)) { None } else { Some((c.value.clone(), c.normed.clone())) }));
                } else {
                    let kind = match sv.want {
                        Want::Command => Kind::Command,
                        Want::Auth => Kind::Auth,
                        Want::Idle => Kind::Idle,
                    };
                    if sv.want == Want::Idle && r.chance(1, 50) && idle < 100 {
                        send!(data(&mut sd));
                    }
                    match sv.recv.poll(kind) {
                        Ev::Nothing => {}
                        Ev::Announced { tag, length, mode } => {
                            did = true;
                            sv.announced += 1;
                            if sv.want != Want::Command {
                                bail!("literal outside of a command", "{length}");
                            }
                            let Some((c, ..)) = plan.get(next_command) else { bail!("literal after the last command", "{length}") };
                            let fits = !limited || c.tag.as_ref().len() < limit as usize;
                            if tag.as_ref() != Some(&c.tag) && (fits || tag.is_some()) {
                                bail!("literal is attributed to the wrong command", "got {tag:?}, want {:?}", c.tag);
                            }
                            match mode {
                                Some(LiteralMode::Sync) => {
                                    if sv.refuses && r.chance(1, 4) {
                                        ctx.c("literals-refused");
                                        sv.recv.refuse();
                                        sv.poisoned = false;
                                        next_command += 1;
                                        refused.push(c.tag.clone());
                                        send!(tagged(&mut sd, &c.tag));
                                    } else {
                                        ctx.c("literals-requested");
                                        send!(go_ahead(&mut sd, &mut r));
                                    }
                                }
                                Some(LiteralMode::NonSync) => ctx.c("non-sync-literals"),
                                None => bail!("announcement without mode", ""),
                            }
                            if let How::Frag(f) = &mut sv.recv.how {
                                if sv.refuses && !f.is_message_complete() && refused.last() != Some(&c.tag) && r.chance(1, 4) {
                                    f.poison_message();
                                    sv.poisoned = true;
                                }
                            }
                        }
                        Ev::Other { tag, what } => {
                            did = true;
                            let Some((c, bad, b)) = plan.get(next_command) else { bail!("message after the last command", "{what:?}") };
                            match what {
                                Out::Poisoned(_) if sv.poisoned => ctx.c("commands-poisoned"),
                                Out::TooLong(_) if limited && *b > limit as usize => ctx.c("commands-too-long"),
                                Out::Dec(Dec::Failed) if *bad => ctx.c("malformed-commands"),
                                what => bail!("message does not arrive", "{what:?}, expected {c:?}"),
                            }
                            sv.poisoned = false;
                            // The exchange answers are never refused; they are short or not limited.
                            if sv.want != Want::Command {
                                bail!("answer does not arrive", "{tag:?}");
                            }
                            if limited && tag.is_none() && c.tag.as_ref().len() >= limit as usize {
                                ctx.c("tag-does-not-fit");
                            } else if tag.as_ref() != Some(&c.tag) && !(limited && c.tag.as_ref().len() >= limit as usize) {
                                bail!("wrong tag of a command that was not decoded", "got {tag:?}, want {:?}", c.tag);
                            }
                            next_command += 1;
                            refused.push(c.tag.clone());
                            send!(tagged(&mut sd, &c.tag));
                        }
                        Ev::Msg(m) => {
                            did = true;
                            if sv.poisoned {
                                bail!("poisoned message is delivered", "{m:?}");
                            }
                            match (*m, sv.want) {
                                (Msg::Command(got), Want::Command) => {
                                    let Some((c, bad, _)) = plan.get(next_command) else { bail!("more commands than were sent", "{got:?}") };
                                    if *bad {
                                        bail!("malformed command is delivered", "{got:?}");
                                    }
                                    if !ctx.same(&got, c, "command arrives changed", &log) {
                                        return;
                                    }
                                    ctx.c("commands-delivered");
                                    next_command += 1;
                                    sv.tag = Some(c.tag.clone());
                                    match &c.body {
                                        CommandBody::Idle => {
                                            sv.want = Want::Idle;
                                            send!(go_ahead(&mut sd, &mut r));
                                        }
                                        CommandBody::Authenticate { .. } => {
                                            sv.rounds = r.below(4);
                                            if sv.rounds > 0 {
                                                sv.want = Want::Auth;
                                                send!(go_ahead(&mut sd, &mut r));
                                            } else {
                                                send!(tagged(&mut sd, &c.tag));
                                            }
                                        }
                                        _ => {
                                            for _ in 0..r.below(4) {
                                                send!(data(&mut sd));
                                            }
                                            send!(tagged(&mut sd, &c.tag));
                                        }
                                    }
                                }
                                (got, Want::Auth | Want::Idle) => {
                                    let Some(a) = answers.pop_front() else { bail!("more answers than were sent", "{got:?}") };
                                    if !ctx.same(&got, &a, "answer arrives changed", &log) {
                                        return;
                                    }
                                    ctx.c(if sv.want == Want::Auth { "authenticate-answers" } else { "idle-ended" });
                                    let end = match &got {
                                        Msg::Auth(imap_types::auth::AuthenticateData::Cancel) | Msg::Idle(_) => true,
                                        _ => {
                                            sv.rounds -= 1;
                                            sv.rounds == 0
                                        }
                                    };
                                    if end {
                                        sv.want = Want::Command;
                                        let t = sv.tag.take().unwrap();
                                        send!(tagged(&mut sd, &t));
                                    } else {
                                        send!(go_ahead(&mut sd, &mut r));
                                    }
                                }
                                (m, w) => bail!("message of another kind", "{m:?} {w:?}"),
                            }
                        }
                    }
                }
            }
            // The client.
            _ => {
                let kind = if cl.state == State::Greeting { Kind::Greeting } else { Kind::Response };
                match cl.recv.poll(kind) {
                    Ev::Nothing => {}
                    Ev::Announced { .. } => {
                        did = true;
                        ctx.c("literals-from-the-server");
                    }
                    Ev::Other { what, .. } => bail!("message from the server does not arrive", "{what:?}, expected {:?}", sv.sent.get(cl.got)),
                    Ev::Msg(m) => {
                        did = true;
                        let Some(w) = sv.sent.get(cl.got) else { bail!("more messages than the server sent", "{m:?}") };
                        if !ctx.same(&*m, w, "message from the server arrives changed", &log) {
                            return;
                        }
                        cl.got += 1;
                        ctx.c("server-messages-delivered");
                        match *m {
                            Msg::Greeting(_) => cl.state = State::Ready,
                            Msg::Response(Response::Status(Status::Tagged(t))) => {
                                if cl.waiting && cl.current.as_ref() == Some(&t.tag) {
                                    // Refused: the rest is not sent.
                                    cl.sending.clear();
                                    cl.waiting = false;
                                    cl.current = None;
                                }
                                let Some(i) = cl.outstanding.iter().position(|x| *x == t.tag) else { bail!("answer to no command", "{:?}", t.tag) };
                                if i != 0 {
                                    bail!("answers are out of order", "{:?} of {:?}", t.tag, cl.outstanding);
                                }
                                cl.outstanding.remove(0);
                                if matches!(cl.state, State::Exchange(_)) {
                                    cl.state = State::Ready;
                                }
                            }
                            Msg::Response(Response::CommandContinuationRequest(_)) => match cl.state {
                                State::Exchange(Want::Auth) => {
                                    let (a, w) = until(&mut sd, p_codec::client, |c| match c.value {
                                        Msg::Auth(_) if !limited || c.canon.bytes().len() < limit as usize => Some((c.value.clone(), c.normed.clone())),
                                        _ => None,
                                    });
                                    let b = a.dump();
                                    log.extend_from_slice(b"\nC: ");
                                    log.extend_from_slice(&b);
                                    c2s.extend(b);
                                    answers.push_back(w);
                                }
                                State::Exchange(Want::Idle) => {
                                    let m = Msg::Idle(imap_types::extensions::idle::IdleDone);
                                    log.extend_from_slice(b"\nC: ");
                                    log.extend(m.dump());
                                    c2s.extend(m.dump());
                                    answers.push_back(m);
                                }
                                _ => {
                                    if !cl.waiting {
                                        bail!("continuation request that nobody waits for", "");
                                    }
                                    cl.waiting = false;
                                }
                            },
                            _ => {}
                        }
                    }
                }
                // Sending.
                if cl.state == State::Ready && !cl.waiting {
                    if cl.sending.is_empty() && cl.current.is_none() {
                        if let Some((v, f)) = cl.script.front() {
                            // Malformed commands start no exchange.
                            let begins = |v: &Command, f: &[Fragment]| matches!(v.body, CommandBody::Authenticate { .. } | CommandBody::Idle) && !crate::msg::concat(f).starts_with(format!("{} XYZZY", v.tag.as_ref()).as_bytes());
                            let exchange = begins(v, f);
                            if cl.outstanding.is_empty() || pipelining && !exchange {
                                let (v, f) = cl.script.pop_front().unwrap();
                                cl.current = Some(v.tag.clone());
                                cl.outstanding.push(v.tag.clone());
                                let exchange = match v.body {
                                    CommandBody::Authenticate { .. } if exchange => Some(Want::Auth),
                                    CommandBody::Idle if exchange => Some(Want::Idle),
                                    _ => None,
                                };
                                cl.sending = f;
                                cl.sending.reverse();
                                log.extend_from_slice(b"\nC: ");
                                if let Some(w) = exchange {
                                    // These have no literals: they go out at once.
                                    while let Some(f) = cl.sending.pop() {
                                        let (Fragment::Line { data } | Fragment::Literal { data, .. }) = f;
                                        log.extend_from_slice(&data);
                                        c2s.extend(data);
                                    }
                                    cl.current = None;
                                    cl.state = State::Exchange(w);
                                }
                                did = true;
                            }
                        }
                    } else if !cl.sending.is_empty() {
                        let (Fragment::Line { data } | Fragment::Literal { data, .. }) = cl.sending.pop().unwrap();
                        log.extend_from_slice(&data);
                        c2s.extend(data);
                        // A synchronising literal is held back until it is asked for.
                        cl.waiting = matches!(cl.sending.last(), Some(Fragment::Literal { mode: LiteralMode::Sync, .. }));
                        if cl.sending.is_empty() {
                            cl.current = None;
                        }
                        did = true;
                    }
                }
            }
        }
        if did {
            idle = 0;
            continue;
        }
        idle += 1;
        // Nobody can do anything any more (each side had its turn many times).
        if idle > 200 && c2s.is_empty() && s2c.is_empty() {
            break;
        }
    }
    ctx.current.clear();
    ctx.eval(&log);
    let done = cl.script.is_empty() && cl.sending.is_empty() && cl.outstanding.is_empty() && next_command == plan.len() && cl.got == sv.sent.len() && cl.state == State::Ready && answers.is_empty() && sv.want == Want::Command;
    if !done {
        bail!("session is stuck", "commands left {}, unanswered {:?}, commands seen {next_command} of {}, messages seen {} of {}", cl.script.len(), cl.outstanding, plan.len(), cl.got, sv.sent.len());
    }
    ctx.c(if pipelining { "sessions-pipelined" } else { "sessions" });
    if cl.recv.blocking || sv.recv.blocking {
        ctx.c("sessions-blocking");
    }
    ctx.cn("steps", steps);
}
