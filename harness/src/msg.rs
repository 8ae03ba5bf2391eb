//! Uniform access to the five codecs.
use bounded_static::IntoBoundedStatic;
use imap_codec::{
    AuthenticateDataCodec, CommandCodec, GreetingCodec, IdleDoneCodec, ResponseCodec,
    decode::{
        AuthenticateDataDecodeError, CommandDecodeError, Decoder, GreetingDecodeError, IdleDoneDecodeError,
        ResponseDecodeError,
    },
    encode::{Encoded, Encoder, Fragment},
};
use imap_types::{
    auth::AuthenticateData,
    command::Command,
    core::{LiteralMode, Tag},
    extensions::idle::IdleDone,
    response::{Greeting, Response},
};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Greeting,
    Command,
    Auth,
    Response,
    Idle,
}
pub const KINDS: [Kind; 5] = [Kind::Greeting, Kind::Command, Kind::Auth, Kind::Response, Kind::Idle];

#[derive(Clone, Debug, PartialEq)]
pub enum Msg {
    Greeting(Greeting<'static>),
    Command(Command<'static>),
    Auth(AuthenticateData<'static>),
    Response(Response<'static>),
    Idle(IdleDone),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Dec {
    Ok {
        rem: Vec<u8>,
        msg: Msg,
    },
    Incomplete,
    Literal {
        tag: Option<Tag<'static>>,
        length: u32,
        mode: Option<LiteralMode>,
    },
    Failed,
}

impl Dec {
    pub fn is_ok(&self) -> bool {
        matches!(self, Dec::Ok { .. })
    }
    pub fn name(&self) -> &'static str {
        match self {
            Dec::Ok { .. } => "ok",
            Dec::Incomplete => "incomplete",
            Dec::Literal { .. } => "literal",
            Dec::Failed => "failed",
        }
    }
}

pub trait Codes {
    fn to_dec(self) -> Dec;
}
impl Codes for GreetingDecodeError {
    fn to_dec(self) -> Dec {
        match self {
            GreetingDecodeError::Incomplete => Dec::Incomplete,
            GreetingDecodeError::Failed => Dec::Failed,
        }
    }
}
impl Codes for AuthenticateDataDecodeError {
    fn to_dec(self) -> Dec {
        match self {
            AuthenticateDataDecodeError::Incomplete => Dec::Incomplete,
            AuthenticateDataDecodeError::Failed => Dec::Failed,
        }
    }
}
impl Codes for IdleDoneDecodeError {
    fn to_dec(self) -> Dec {
        match self {
            IdleDoneDecodeError::Incomplete => Dec::Incomplete,
            IdleDoneDecodeError::Failed => Dec::Failed,
        }
    }
}
impl Codes for CommandDecodeError<'_> {
    fn to_dec(self) -> Dec {
        match self {
            CommandDecodeError::Incomplete => Dec::Incomplete,
            CommandDecodeError::LiteralFound { tag, length, mode } => Dec::Literal {
                tag: Some(tag.into_static()),
                length,
                mode: Some(mode),
            },
            CommandDecodeError::Failed => Dec::Failed,
        }
    }
}
impl Codes for ResponseDecodeError {
    fn to_dec(self) -> Dec {
        match self {
            ResponseDecodeError::Incomplete => Dec::Incomplete,
            ResponseDecodeError::LiteralFound { length } => Dec::Literal {
                tag: None,
                length,
                mode: None,
            },
            ResponseDecodeError::Failed => Dec::Failed,
        }
    }
}

pub fn decode(kind: Kind, input: &[u8]) -> Dec {
    macro_rules! go {
        ($codec:ident, $v:ident) => {
            match $codec::default().decode(input) {
                Ok((rem, m)) => Dec::Ok {
                    rem: rem.to_vec(),
                    msg: Msg::$v(m.into_static()),
                },
                Err(e) => e.to_dec(),
            }
        };
    }
    match kind {
        Kind::Greeting => go!(GreetingCodec, Greeting),
        Kind::Command => go!(CommandCodec, Command),
        Kind::Auth => go!(AuthenticateDataCodec, Auth),
        Kind::Response => go!(ResponseCodec, Response),
        Kind::Idle => match IdleDoneCodec::default().decode(input) {
            Ok((rem, m)) => Dec::Ok {
                rem: rem.to_vec(),
                msg: Msg::Idle(m),
            },
            Err(e) => e.to_dec(),
        },
    }
}

pub fn decode_static(kind: Kind, input: &[u8]) -> Dec {
    macro_rules! go {
        ($codec:ident, $v:ident) => {
            match $codec::default().decode_static(input) {
                Ok((rem, m)) => Dec::Ok {
                    rem: rem.to_vec(),
                    msg: Msg::$v(m),
                },
                Err(e) => e.to_dec(),
            }
        };
    }
    match kind {
        Kind::Greeting => go!(GreetingCodec, Greeting),
        Kind::Command => go!(CommandCodec, Command),
        Kind::Auth => go!(AuthenticateDataCodec, Auth),
        Kind::Response => go!(ResponseCodec, Response),
        Kind::Idle => go!(IdleDoneCodec, Idle),
    }
}

impl Msg {
    pub fn kind(&self) -> Kind {
        match self {
            Msg::Greeting(_) => Kind::Greeting,
            Msg::Command(_) => Kind::Command,
            Msg::Auth(_) => Kind::Auth,
            Msg::Response(_) => Kind::Response,
            Msg::Idle(_) => Kind::Idle,
        }
    }
    pub fn encoded(&self) -> Encoded {
        match self {
            Msg::Greeting(m) => GreetingCodec::default().encode(m),
            Msg::Command(m) => CommandCodec::default().encode(m),
            Msg::Auth(m) => AuthenticateDataCodec::default().encode(m),
            Msg::Response(m) => ResponseCodec::default().encode(m),
            Msg::Idle(m) => IdleDoneCodec::default().encode(m),
        }
    }
    pub fn fragments(&self) -> Vec<Fragment> {
        self.encoded().collect()
    }
    pub fn dump(&self) -> Vec<u8> {
        match self {
            Msg::Greeting(m) => GreetingCodec::default().encode(m).dump(),
            Msg::Command(m) => CommandCodec::default().encode(m).dump(),
            Msg::Auth(m) => AuthenticateDataCodec::default().encode(m).dump(),
            Msg::Response(m) => ResponseCodec::default().encode(m).dump(),
            Msg::Idle(m) => IdleDoneCodec::default().encode(m).dump(),
        }
    }
}
pub fn concat(f: &[Fragment]) -> Vec<u8> {
    let mut out = Vec::new();
    for f in f {
        match f {
            Fragment::Line { data } | Fragment::Literal { data, .. } => out.extend_from_slice(data),
        }
    }
    out
}
