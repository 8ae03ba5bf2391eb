//! What a line of IMAP says, whatever the spelling: its words and strings in order. Used to see that re-encoding keeps the content
//! of any accepted input. Only for builds without quirks (which change content on purpose).

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Tok {
    /// Bare word.
    Word(Vec<u8>),
    /// Quoted string or literal.
    Str(Vec<u8>),
    /// `()`
    Empty,
}

fn literal(w: &[u8]) -> Option<(usize, usize)> {
    let mut i = 1;
    while i < w.len() && w[i].is_ascii_digit() {
        i += 1;
    }
    let n: usize = std::str::from_utf8(&w[1..i]).ok()?.parse().ok()?;
    if w.get(i) == Some(&b'+') {
        i += 1;
    }
    let rest = w.get(i..)?;
    if !rest.starts_with(b"}\r\n") {
        return None;
    }
    i += 3;
    (i.checked_add(n)? <= w.len()).then_some((i, n))
}

fn quoted(w: &[u8]) -> Option<(Vec<u8>, usize)> {
    let mut out = Vec::new();
    let mut i = 1;
    loop {
        match *w.get(i)? {
            b'"' => return Some((out, i + 1)),
            b'\\' => {
                out.push(*w.get(i + 1)?);
                i += 2;
            }
            b'\r' | b'\n' => return None,
            b => {
                out.push(b);
                i += 1;
            }
        }
    }
}

/// Leading zeros of numbers and letter case do not matter.
fn plain(t: &[u8]) -> Vec<u8> {
    let mut out: Vec<u8> = Vec::new();
    for (i, b) in t.iter().enumerate() {
        let after_digit = out.last().is_some_and(|b| b.is_ascii_digit());
        if *b == b'0' && !after_digit && t.get(i + 1).is_some_and(|b| b.is_ascii_digit()) {
            continue;
        }
        out.push(b.to_ascii_lowercase());
    }
    out
}

pub fn tokens(w: &[u8]) -> Vec<Tok> {
    let mut out = Vec::new();
    let mut word: Vec<u8> = Vec::new();
    let mut i = 0;
    let flush = |word: &mut Vec<u8>, out: &mut Vec<Tok>| {
        if !word.is_empty() {
            out.push(Tok::Word(std::mem::take(word)));
        }
    };
    while i < w.len() {
        match w[i] {
            // An empty list may become NIL or go without saying.
            b'(' if w.get(i + 1) == Some(&b')') => {
                flush(&mut word, &mut out);
                out.push(Tok::Empty);
                i += 2;
            }
            b' ' | b'(' | b')' | b'\r' | b'\n' => {
                flush(&mut word, &mut out);
                i += 1;
            }
            b'"' => match quoted(&w[i..]) {
                Some((s, n)) => {
                    flush(&mut word, &mut out);
                    out.push(Tok::Str(s));
                    i += n;
                }
                None => {
                    word.push(b'"');
                    i += 1;
                }
            },
            b'{' => match literal(&w[i..]) {
                Some((o, n)) => {
                    if word == b"~" {
                        word.clear();
                    }
                    flush(&mut word, &mut out);
                    out.push(Tok::Str(w[i + o..i + o + n].to_vec()));
                    i += o + n;
                }
                None => {
                    word.push(b'{');
                    i += 1;
                }
            },
            b => {
                word.push(b);
                i += 1;
            }
        }
    }
    flush(&mut word, &mut out);
    out
}

/// Strings whose letter case carries no meaning.
fn caseless(t: &[u8]) -> bool {
    [&b"inbox"[..], b"text", b"message", b"rfc822"].iter().any(|k| t.eq_ignore_ascii_case(k))
}
/// Entry name of a MODSEQ search key: flag names ignore case.
fn flag_entry(t: &[u8]) -> bool {
    t.len() > 7 && t[..7].eq_ignore_ascii_case(b"/flags/")
}
fn dateish(t: &[u8]) -> bool {
    t.len() > 9 && t.len() < 30 && t.iter().filter(|b| **b == b'-').count() >= 2
}

pub fn same(a: &Tok, b: &Tok) -> bool {
    match (a, b) {
        (Tok::Str(a), Tok::Str(b)) => a == b || flag_entry(a) && a.eq_ignore_ascii_case(b) || caseless(a) && a.eq_ignore_ascii_case(b) || dateish(a) && zone(&plain(a)) == zone(&plain(b)),
        (Tok::Word(a) | Tok::Str(a), Tok::Word(b) | Tok::Str(b)) => plain(a) == plain(b),
        (Tok::Empty, Tok::Word(a)) | (Tok::Word(a), Tok::Empty) => a.eq_ignore_ascii_case(b"nil"),
        (a, b) => a == b,
    }
}
/// A day may be padded with a space; a zone counts by its value in minutes.
fn zone(t: &[u8]) -> Vec<u8> {
    let t = t.strip_prefix(b" ").unwrap_or(t);
    if let Some(i) = t.iter().rposition(|b| *b == b' ')
        && let [sign @ (b'+' | b'-'), digits @ ..] = &t[i + 1..]
        && let Some(n) = std::str::from_utf8(digits).ok().and_then(|d| d.parse::<i64>().ok())
    {
        let m = n / 100 * 60 + n % 100;
        return [&t[..i], format!(" {}", if *sign == b'-' { -m } else { m }).as_bytes()].concat();
    }
    t.to_vec()
}

/// The first difference in content, if any.
pub fn differ(a: &[u8], b: &[u8]) -> Option<String> {
    let (mut x, mut y) = (tokens(a), tokens(b));
    // An empty initial response may be written as nothing or as "=".
    let eq = Tok::Word(b"=".to_vec());
    if x.len() == y.len() + 1 && x.last() == Some(&eq) {
        x.pop();
    } else if y.len() == x.len() + 1 && y.last() == Some(&eq) {
        y.pop();
    }
    let (mut i, mut j) = (0, 0);
    while i < x.len() || j < y.len() {
        match (x.get(i), y.get(j)) {
            (Some(p), Some(q)) if same(p, q) => {
                i += 1;
                j += 1;
            }
            (Some(Tok::Empty), _) => i += 1,
            (p, q) => return Some(format!("{p:?} became {q:?}")),
        }
    }
    None
}
