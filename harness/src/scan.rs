//! Judges the parts of a message by its debug output.
use crate::{p_msg::base64_valid, p_types::*, wire::show};

/// Reads the debug output of a message and reports parts that no validating constructor lets through.
pub struct Scan<'a> {
    pub b: &'a [u8],
    pub at: usize,
    pub bad: Option<String>,
    /// Holds a value of a type without validating constructor.
    pub unvalidated: bool,
    pub seen: std::collections::BTreeSet<String>,
}
impl Scan<'_> {
    fn report(&mut self, s: String) {
        if self.bad.is_none() {
            self.bad = Some(s);
        }
    }
    /// A quoted literal starting at the opening quote; returns its bytes.
    fn quoted(&mut self) -> Vec<u8> {
        let q = self.b[self.at];
        self.at += 1;
        let mut out = Vec::new();
        while self.at < self.b.len() && self.b[self.at] != q {
            if self.b[self.at] == b'\\' {
                self.at += 1;
                match self.b[self.at] {
                    b'n' => out.push(b'\n'),
                    b'r' => out.push(b'\r'),
                    b't' => out.push(b'\t'),
                    b'0' => out.push(0),
                    b'x' => {
                        let h = std::str::from_utf8(&self.b[self.at + 1..self.at + 3]).unwrap();
                        out.push(u8::from_str_radix(h, 16).unwrap());
                        self.at += 2;
                    }
                    b'u' => {
                        let end = self.at + self.b[self.at..].iter().position(|b| *b == b'}').unwrap();
                        let h = std::str::from_utf8(&self.b[self.at + 2..end]).unwrap();
                        let c = char::from_u32(u32::from_str_radix(h, 16).unwrap()).unwrap();
                        out.extend_from_slice(c.to_string().as_bytes());
                        self.at = end;
                    }
                    c => out.push(c),
                }
            } else {
                out.push(self.b[self.at]);
            }
            self.at += 1;
        }
        self.at += 1;
        out
    }
    pub fn run(&mut self) {
        // For every open bracket: the name before it, the elements so far, whether anything stands in it.
        let mut stack: Vec<(u8, String, usize, bool)> = Vec::new();
        let mut ident = String::new();
        let mut code_none = false;
        while self.at < self.b.len() {
            let c = self.b[self.at];
            if c != b' ' && c != b']' && c != b')' && c != b'}' {
                if let Some(t) = stack.last_mut() {
                    t.3 = true;
                }
            }
            match c {
                b'(' | b'[' | b'{' => {
                    stack.push((c, std::mem::take(&mut ident), 0, false));
                    self.at += 1;
                    let name = stack.last().unwrap().1.clone();
                    if name == "CodeOther" || name == "QuotedUtf8" || name == "Referral" {
                        self.unvalidated = true;
                    }
                }
                b')' | b']' | b'}' => {
                    self.at += 1;
                    let (_, _, commas, any) = stack.pop().unwrap_or((0, String::new(), 0, false));
                    let n = if any { commas + 1 } else { 0 };
                    if c == b']' {
                        let rest = &self.b[self.at..];
                        if rest.starts_with(b"+") {
                            self.at += 1;
                            self.seen.insert("Vec1".into());
                            if n < 1 {
                                self.report("empty list".into());
                            }
                        } else if rest.starts_with(b"{2,}") {
                            self.at += 4;
                            self.seen.insert("Vec2".into());
                            if n < 2 {
                                self.report("list of fewer than two".into());
                            }
                        }
                    }
                    ident.clear();
                }
                b',' => {
                    if let Some(t) = stack.last_mut() {
                        t.2 += 1;
                    }
                    ident.clear();
                    self.at += 1;
                }
                b'"' | b'\'' => {
                    let s = self.quoted();
                    let names: Vec<&str> = stack.iter().rev().map(|t| t.1.as_str()).collect();
                    let inner = names.first().copied().unwrap_or("");
                    let outer = names.get(1).copied().unwrap_or("");
                    let text = String::from_utf8_lossy(&s).into_owned();
                    if ["Atom", "AtomExt", "Tag", "Text", "Quoted", "ListCharString", "QuotedChar", "Literal"].contains(&inner) {
                        self.seen.insert(inner.to_string());
                    }
                    if names.iter().take(5).any(|n| *n == "MailboxOther") {
                        self.seen.insert("MailboxOther".into());
                    }
                    if outer.ends_with("Other") || outer.ends_with("Extension") {
                        self.seen.insert(outer.to_string());
                    }
                    let ok = match inner {
                        "Atom" => m_atom(&s),
                        "AtomExt" => m_atom_ext(&s),
                        "Tag" => m_tag(&s),
                        "Text" => m_text(&s) && !(code_none && (s.first() == Some(&b'[') || base64_valid(&s))),
                        "Quoted" => m_quoted(&s),
                        "ListCharString" => m_list(&s),
                        "QuotedChar" => s.len() == 1 && m_quoted(&s),
                        "Literal" => m_literal(&s),
                        "CodeOther" | "QuotedUtf8" | "Referral" => {
                            self.unvalidated = true;
                            true
                        }
                        _ => true,
                    };
                    if !ok {
                        self.report(format!("{inner} holding {}", show(&s)));
                    }
                    code_none = false;
                    let upper = text.to_ascii_uppercase();
                    let is = |t: &[&str]| t.iter().any(|k| k.to_ascii_uppercase() == upper);
                    let reserved = match outer {
                        "CapabilityOther" => model_cap(&text).1 != "other",
                        "AuthMechanismOther" => is(AUTH),
                        "ResourceOther" => is(RESOURCES),
                        "SortAlgorithmOther" => is(SORTS),
                        "ThreadingAlgorithmOther" => is(THREADS),
                        "FlagExtension" | "AttributeFlagExtension" => is(FLAGS),
                        "FlagNameAttributeExtension" => is(ATTRS),
                        "CapabilityEnableOther" => is(ENABLE_EXT),
                        _ => false,
                    };
                    if reserved {
                        self.report(format!("{outer} holding the reserved name {text}"));
                    }
                    if names.iter().take(5).any(|n| *n == "MailboxOther") && m_inbox(&s) {
                        self.report("a mailbox named inbox that is not INBOX".into());
                    }
                    ident.clear();
                }
                c if ident.is_empty() && (c.is_ascii_digit() || ((c == b'+' || c == b'-') && self.b.get(self.at + 1).is_some_and(|d| d.is_ascii_digit()))) => self.number_or_date(),
                c if c.is_ascii_alphanumeric() || c == b'_' => {
                    ident.push(c as char);
                    self.at += 1;
                    if ident == "b" && self.b.get(self.at) == Some(&b'"') {
                        ident.clear();
                    }
                    // `code: None` of a basic continuation request forbids ambiguous texts.
                    if ident == "None" && stack.last().is_some_and(|t| t.1 == "CommandContinuationRequestBasic") {
                        code_none = true;
                    }
                    if ident == "Some" {
                        code_none = false;
                    }
                }
                b' ' => {
                    // "Literal {" keeps its name, "data: " does not.
                    if self.b.get(self.at + 1) != Some(&b'{') {
                        ident.clear();
                    }
                    self.at += 1;
                }
                b':' => {
                    ident.clear();
                    self.at += 1;
                }
                _ => self.at += 1,
            }
        }
    }
    /// chrono prints raw text: `2020-02-03T04:05:06+01:00` or `2020-02-03`.
    fn number_or_date(&mut self) {
        let rest = &self.b[self.at..];
        let len = rest.iter().position(|b| !(b.is_ascii_alphanumeric() || b"+-:.".contains(b))).unwrap_or(rest.len());
        let t = std::str::from_utf8(&rest[..len]).unwrap_or("").to_string();
        self.at += len;
        if t.chars().all(|c| c.is_ascii_digit()) {
            return;
        }
        let shape: String = t.chars().map(|c| if c.is_ascii_digit() { 'd' } else { c }).collect();
        let name = if t.contains('T') { "DateTime" } else { "NaiveDate" };
        let ok = match name {
            "NaiveDate" => shape == "dddd-dd-dd",
            _ => ["dddd-dd-ddTdd:dd:ddZ", "dddd-dd-ddTdd:dd:dd+dd:dd", "dddd-dd-ddTdd:dd:dd-dd:dd"].contains(&shape.as_str()),
        };
        self.seen.insert(name.into());
        if !ok {
            self.report(format!("{name} holding {t}"));
        }
    }
}
