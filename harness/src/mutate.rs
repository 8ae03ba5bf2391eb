//! Byte level mutation with an IMAP dictionary.
use crate::rng::Rng;

pub const DICT: &[&str] = &[
    " ", "  ", "\r\n", "\n", "\r", "(", ")", "()", "((", "))", "[", "]", "{", "}", "\"", "\\", "\"\"", "\"\\\"\"", "NIL", "nil", "INBOX", "\"inbox\"", "*",
    "+", "-", "%", "0", "1", "00", "01", "4294967295", "4294967294", "4294967296", "18446744073709551615", "18446744073709551616", "-1", "1:*", "*:1", "4294967295:*", "*:*",
    "1,2", ",", ":", ".", "<0.1>", "<1>", "{0}\r\n", "{1}\r\na", "{3+}\r\nabc", "~{2}\r\n\0a", "{4294967295}\r\n", "{4294967296}\r\n", "{00}\r\n",
    "\\Seen", "\\*", "\\Recent", "\\", "$x", "OK", "NO", "BAD", "BYE", "PREAUTH", "[ALERT]", "[ALERT] x", "[]", "[X]", "[CAPABILITY IMAP4REV1]",
    "[PERMANENTFLAGS (\\*)]", "[UIDNEXT 1]", "[COPYUID 1 2 3]", "[REFERRAL imap://x]", "[BADCHARSET]", "[BADCHARSET (x)]", "[MODIFIED 1]",
    "AUTH=PLAIN", "QUOTA=RES-STORAGE", "QUOTA=RES-x", "quota=fooRES-y", "SORT=DISPLAY", "SORT=", "THREAD=REFERENCES", "COMPRESS=DEFLATE", "AUTH=",
    "UTF8=ACCEPT", "LITERAL+", "CHARSET", "UTF-8", "BODY[]", "BODY[TEXT]", "BODY[1.2.HEADER.FIELDS (a)]", "BODY.PEEK[1.MIME]", "BINARY[1]", "BINARY.SIZE[]", "BINARY.PEEK[1]<0.1>",
    "FLAGS", "UID", "MODSEQ (1)", "MODSEQ 1", "ENVELOPE", "RFC822", "BODYSTRUCTURE", "\"TEXT\"", "\"MESSAGE\" \"RFC822\"", "\"APPLICATION\"", "ALL", "FAST",
    "OR", "NOT", "HEADER", "SINCE", "1-Jan-2000", "\"01-Jan-2000\"", "\" 1-Feb-2020 00:00:00 +0000\"", "\"29-Feb-2023 00:00:00 +0000\"", "\"31-Dec-9999 23:59:59 -2359\"",
    "KEYWORD", "LARGER", "MODSEQ \"/flags/\\\\Seen\" all 1", "CONDSTORE", "QRESYNC (1 1)", "CHANGEDSINCE", "VANISHED", "(EARLIER)", "UNCHANGEDSINCE 1", "REVERSE", "ARRIVAL",
    "DONE", "=", "==", "AA==", "YWJj", "AB==", "\0", "\x7f", "\u{80}", "ä", "\"ä\"", "\t", "/private/x", "\"/\"", "DEPTH 1", "MAXSIZE 1", "A1 NOOP\r\n", "* OK x\r\n", "+ \r\n", "+\r\n",
];

/// One random edit.
pub fn edit(r: &mut Rng, v: &mut Vec<u8>, other: &[u8]) {
    let n = v.len();
    match r.below(14) {
        0 if n > 0 => {
            let i = r.below(n);
            v[i] ^= 1 << r.below(8);
        }
        1 if n > 0 => {
            let i = r.below(n);
            v[i] = r.below(256) as u8;
        }
        2 | 3 | 4 => {
            let i = r.below(n + 1);
            let d = r.pick(DICT).as_bytes();
            v.splice(i..i, d.iter().copied());
        }
        5 | 6 => {
            // Replace a token.
            let (a, b) = token(r, v);
            let d = r.pick(DICT).as_bytes();
            v.splice(a..b, d.iter().copied());
        }
        7 if n > 0 => {
            let a = r.below(n);
            let b = (a + r.range(1, 6)).min(n);
            v.drain(a..b);
        }
        8 => {
            let (a, b) = token(r, v);
            v.drain(a..b);
        }
        9 => {
            // Duplicate a token.
            let (a, b) = token(r, v);
            let t = v[a..b].to_vec();
            let i = if r.bool() { b } else { r.below(n + 1) };
            v.splice(i..i, t);
        }
        10 if !other.is_empty() => {
            // Token of another message.
            let o = other.to_vec();
            let (a, b) = token(r, &o);
            let (c, d) = token(r, v);
            let t = o[a..b].to_vec();
            v.splice(c..d, t);
        }
        11 if n > 0 => {
            // Letter case of a token.
            let (a, b) = token(r, v);
            for x in &mut v[a..b] {
                if r.bool() {
                    *x = x.to_ascii_lowercase();
                } else {
                    *x = x.to_ascii_uppercase();
                }
            }
        }
        12 if n > 1 => {
            let i = r.below(n - 1);
            v.swap(i, i + 1);
        }
        13 if !other.is_empty() => {
            let a = r.below(n + 1);
            let b = r.below(other.len());
            v.truncate(a);
            v.extend_from_slice(&other[b..]);
        }
        _ => v.insert(r.below(n + 1), r.below(256) as u8),
    }
}

/// The range of a random token.
fn token(r: &mut Rng, v: &[u8]) -> (usize, usize) {
    if v.is_empty() {
        return (0, 0);
    }
    let is_sep = |b: u8| b" ()[]\r\n\"<>{},:.".contains(&b);
    let i = r.below(v.len());
    if is_sep(v[i]) {
        return (i, i + 1);
    }
    let mut a = i;
    while a > 0 && !is_sep(v[a - 1]) {
        a -= 1;
    }
    let mut b = i;
    while b < v.len() && !is_sep(v[b]) {
        b += 1;
    }
    (a, b)
}

/// Lengths a sender may announce long before (if ever) it sends the data.
pub const ANNOUNCED: &[u32] = &[0, 1, 9, 10, 99, 100, 127, 128, 255, 256, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 9999, 16383, 16384, 32767, 32768, 65535, 65536, 100_000, 1 << 20, (1 << 24) + 1, 99_999_999, i32::MAX as u32, 1 << 31, u32::MAX - 1, u32::MAX];

/// The input ends with a literal announcement: announce another length instead.
pub fn reannounce(r: &mut Rng, w: &mut Vec<u8>) -> Option<u32> {
    let body = w.strip_suffix(b"}\r\n")?;
    let plus = body.ends_with(b"+");
    let digits_end = body.len() - plus as usize;
    let start = body[..digits_end].iter().rposition(|b| !b.is_ascii_digit())? + 1;
    if start == digits_end || body[start - 1] != b'{' {
        return None;
    }
    let n = match r.below(4) {
        0 | 1 => *r.pick(ANNOUNCED),
        2 => r.next() as u32 >> r.below(32),
        _ => r.below(20_000) as u32,
    };
    let tail = w.split_off(digits_end);
    w.truncate(start);
    w.extend_from_slice(n.to_string().as_bytes());
    w.extend_from_slice(&tail);
    Some(n)
}
