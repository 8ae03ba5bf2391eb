//! C21: documents written and read with serde.
use serde_json::{Value, json};

use crate::{
    Prop,
    ctx::{Ctx, cut},
    msg::{Kind, Msg},
    p_codec,
    p_types::*,
    rng::{Rng, mix},
    scan::Scan,
    wire::show,
};

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C21", fixed: None, case: c21, quick: 1000000, thorough: 10_000_000 }]
}

fn to_value(m: &Msg) -> Result<Value, String> {
    match m {
        Msg::Greeting(m) => serde_json::to_value(m),
        Msg::Command(m) => serde_json::to_value(m),
        Msg::Auth(m) => serde_json::to_value(m),
        Msg::Response(m) => serde_json::to_value(m),
        Msg::Idle(_) => Ok(Value::Null),
    }
    .map_err(|e| e.to_string())
}
fn to_text(m: &Msg) -> Result<String, String> {
    match m {
        Msg::Greeting(m) => serde_json::to_string(m),
        Msg::Command(m) => serde_json::to_string(m),
        Msg::Auth(m) => serde_json::to_string(m),
        Msg::Response(m) => serde_json::to_string(m),
        Msg::Idle(_) => Ok("null".into()),
    }
    .map_err(|e| e.to_string())
}
#[derive(Clone, Copy, Debug)]
enum How {
    Value,
    Str,
    Slice,
    Reader,
}
fn from(kind: Kind, v: &Value, text: &str, how: How) -> Result<Msg, String> {
    macro_rules! go {
        ($v:ident) => {
            match how {
                How::Value => serde_json::from_value(v.clone()),
                How::Str => serde_json::from_str(text),
                How::Slice => serde_json::from_slice(text.as_bytes()),
                How::Reader => serde_json::from_reader(text.as_bytes()),
            }
            .map(Msg::$v)
            .map_err(|e| e.to_string())
        };
    }
    match kind {
        Kind::Greeting => go!(Greeting),
        Kind::Command => go!(Command),
        Kind::Auth => go!(Auth),
        Kind::Response => go!(Response),
        Kind::Idle => Err("no".into()),
    }
}

/// Where in a document: the path of map keys and indices.
fn paths(v: &Value, at: &mut Vec<Value>, out: &mut Vec<Vec<Value>>) {
    out.push(at.clone());
    match v {
        Value::Array(a) => {
            // Long byte arrays: a few suffice.
            let step = (a.len() / 6).max(1);
            for (i, x) in a.iter().enumerate().filter(|(i, _)| i % step == 0) {
                at.push(json!(i));
                paths(x, at, out);
                at.pop();
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                at.push(json!(k));
                paths(x, at, out);
                at.pop();
            }
        }
        _ => {}
    }
}
fn get<'a>(v: &'a mut Value, path: &[Value]) -> &'a mut Value {
    let mut v = v;
    for p in path {
        v = match p {
            Value::String(k) => &mut v[k.as_str()],
            p => &mut v[p.as_u64().unwrap() as usize],
        };
    }
    v
}

fn judge(ctx: &mut Ctx, m: &Msg, doc: &str, what: &str) {
    let d = format!("{m:?}");
    let mut s = Scan { b: d.as_bytes(), at: 0, bad: None, unvalidated: false, seen: Default::default() };
    s.run();
    let (bad, unvalidated) = (s.bad, s.unvalidated);
    for n in s.seen {
        ctx.c(&format!("judged:{n}"));
    }
    if let Some(bad) = bad {
        ctx.fail(format!("deserialised past validation: {}", bad.split(" holding ").next().unwrap_or("")), format!("{bad} after {what}\n{}", cut(&d)), doc.as_bytes());
        return;
    }
    if unvalidated {
        ctx.c("has-unvalidated-type");
        return;
    }
    // Nothing a document says may break out of its place on the wire.
    for f in m.fragments() {
        if let imap_codec::encode::Fragment::Line { data } = f {
            let inner = data.strip_suffix(b"\r\n");
            ctx.check(inner.is_some_and(|d| !d.iter().any(|b| [0, b'\r', b'\n'].contains(b))), "deserialised message breaks the line", doc.as_bytes(), || format!("{} after {what}", show(&data)));
        }
    }
}

fn corrupt(r: &mut Rng, v: &mut Value) -> Option<&'static str> {
    let mut all = Vec::new();
    paths(v, &mut Vec::new(), &mut all);
    let path = r.pick(&all).clone();
    if path.is_empty() {
        return None;
    }
    let other = r.pick(&all).clone();
    let is_type = path.last() == Some(&json!("type"));
    let names = known_names();
    let spare = get(v, &other).clone();
    let node = get(v, &path);
    let hostile = |r: &mut Rng| String::from_utf8_lossy(&content(r)).into_owned();
    let what = match node {
        Value::String(s) if is_type => {
            // Another variant.
            let t = *r.pick(&["Other", "Atom", "Quoted", "Literal", "Inbox", "Basic", "Extension", "Single", "Range", "None", "Token", "String"]);
            *s = t.to_string();
            "variant"
        }
        Value::String(s) => match r.below(5) {
            0 => {
                let n = r.pick(&names).clone();
                *s = recase(r, &n);
                "known name"
            }
            1 => {
                let c: Vec<char> = s.chars().collect();
                let at = r.below(c.len() + 1);
                let ins = *r.pick(&['\r', '\n', '\0', ' ', '"', '\\', '(', ')', '{', '%', '*', ']', '[', '+', '\u{7f}', 'ä', '\t']);
                *s = c[..at].iter().chain([&ins]).chain(&c[at..]).collect();
                "inserted character"
            }
            2 => {
                *s = r.pick(&["", "INBOX", "inbox", "[x] y", "aGVsbG8=", "2020-02-30", "0000-01-01", "10000-01-01", "-0001-01-01", "+12020-01-01T00:00:00Z", "2020-01-01T00:00:00.5Z", "2020-01-01T00:00:00+00:00:30", "2020-01-01T00:00:60Z", "9999-12-31T23:59:59+14:00", "NIL", "+", "a\r\nb"]).to_string();
                "special string"
            }
            3 => {
                // A date-time or date with something off.
                *s = format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}{}{}", r.pick(&[0, 1, 1999, 2020, 9999, 10000]), r.range(1, 12), r.range(1, 28), r.range(0, 23), r.range(0, 59), r.range(0, 59), r.pick(&["", ".001", ".000000001", ".0"]), r.pick(&["Z", "+01:00", "-23:59", "+00:00", "-00:30", "+12:34"]));
                "date"
            }
            _ => {
                *s = hostile(r);
                "string"
            }
        },
        Value::Number(_) => {
            *node = r.pick(&[json!(0), json!(-1), json!(10), json!(13), json!(255), json!(256), json!(4294967295u64), json!(4294967296u64), json!(u64::MAX), json!(1.5), json!("1"), Value::Null]).clone();
            "number"
        }
        Value::Array(a) => match r.below(5) {
            0 => {
                a.clear();
                "emptied list"
            }
            1 => {
                a.truncate(1);
                "truncated list"
            }
            2 => {
                if !a.is_empty() {
                    let at = r.below(a.len());
                    a.remove(at);
                }
                "removed element"
            }
            3 => {
                a.push(json!(0));
                "zero appended"
            }
            _ => {
                if let Some(x) = a.first().cloned() {
                    a.push(x);
                }
                "repeated element"
            }
        },
        Value::Null => {
            *node = if r.bool() { json!(hostile(r)) } else { spare };
            "null replaced"
        }
        Value::Object(o) => {
            if r.bool() {
                let k: Vec<String> = o.keys().cloned().collect();
                if let Some(k) = k.first() {
                    o.remove(k);
                }
                "removed field"
            } else {
                *node = spare;
                "other part"
            }
        }
        Value::Bool(b) => {
            *b = !*b;
            "bool"
        }
    };
    Some(what)
}

fn c21(ctx: &mut Ctx, seed: u64) {
    let c = p_codec::any(seed);
    if matches!(c.value, Msg::Idle(_)) {
        return;
    }
    ctx.merge(&c.cov);
    let mut r = Rng::new(mix(seed ^ 21));
    let kind = c.value.kind();
    let wire = c.canon.bytes();
    ctx.current = wire.clone();
    let (v, text) = match (to_value(&c.value), to_text(&c.value)) {
        (Ok(v), Ok(t)) => (v, t),
        (a, b) => {
            ctx.fail("does not serialise", format!("{a:?} {b:?}"), &wire);
            return;
        }
    };
    let hows = [How::Value, How::Str, How::Slice, How::Reader];
    if r.chance(1, 2) {
        ctx.eval(&wire);
        ctx.c("round-trips");
        for how in hows {
            match from(kind, &v, &text, how) {
                Ok(m) => {
                    ctx.same(&m, &c.value, "serialisation round trip changes the message", &wire);
                }
                Err(e) => ctx.fail("serialised message does not deserialise", format!("{how:?}: {e}\n{}", cut(&text)), &wire),
            }
        }
        judge(ctx, &c.value, &text, "nothing");
        return;
    }
    let mut w = v.clone();
    let Some(what) = corrupt(&mut r, &mut w) else { return };
    let doc = w.to_string();
    ctx.current = doc.clone().into_bytes();
    ctx.eval(doc.as_bytes());
    let how = *r.pick(&hows);
    match from(kind, &w, &doc, how) {
        Ok(m) => {
            ctx.c("corrupted-accepted");
            ctx.c(&format!("accepted:{what}"));
            judge(ctx, &m, &doc, what);
            // What was accepted is a message like any other.
            match to_value(&m) {
                Ok(v2) => match from(kind, &v2, &v2.to_string(), How::Str) {
                    Ok(m2) => {
                        ctx.same(&m2, &m, "serialisation round trip changes the message", doc.as_bytes());
                    }
                    Err(e) => ctx.fail("serialised message does not deserialise", format!("{e}\n{}", cut(&v2.to_string())), doc.as_bytes()),
                },
                Err(e) => ctx.fail("does not serialise", e, doc.as_bytes()),
            }
        }
        Err(_) => {
            ctx.c("corrupted-refused");
            ctx.c(&format!("refused:{what}"));
        }
    }
}
