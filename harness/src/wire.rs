//! Reference wire representation: a list of line bytes and literals.
use imap_codec::encode::Fragment;
use imap_types::core::LiteralMode;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Seg {
    Bytes(Vec<u8>),
    Lit { data: Vec<u8>, mode: LiteralMode },
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Wire {
    pub segs: Vec<Seg>,
    /// Total number of bytes.
    pub len: usize,
}

impl Wire {
    pub fn push(&mut self, b: &[u8]) {
        self.len += b.len();
        if let Some(Seg::Bytes(v)) = self.segs.last_mut() {
            v.extend_from_slice(b);
        } else {
            self.segs.push(Seg::Bytes(b.to_vec()));
        }
    }
    /// Write the announcement into the current line and append the literal.
    pub fn literal(&mut self, data: &[u8], mode: LiteralMode, eight: bool, zeros: usize) {
        let ann = format!(
            "{}{{{}{}{}}}\r\n",
            if eight { "~" } else { "" },
            "0".repeat(zeros),
            data.len(),
            if mode == LiteralMode::NonSync { "+" } else { "" }
        );
        self.push(ann.as_bytes());
        self.len += data.len();
        self.segs.push(Seg::Lit {
            data: data.to_vec(),
            mode,
        });
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut out = Vec::new();
        for s in &self.segs {
            match s {
                Seg::Bytes(b) => out.extend_from_slice(b),
                Seg::Lit { data, .. } => out.extend_from_slice(data),
            }
        }
        out
    }
    /// The literals: (offset of first data byte, length, mode).
    pub fn literals(&self) -> Vec<(usize, usize, LiteralMode)> {
        let mut out = Vec::new();
        let mut at = 0;
        for s in &self.segs {
            match s {
                Seg::Bytes(b) => at += b.len(),
                Seg::Lit { data, mode } => {
                    out.push((at, data.len(), *mode));
                    at += data.len();
                }
            }
        }
        out
    }
    /// The fragments an encoder has to yield for this wire.
    pub fn fragments(&self) -> Vec<Fragment> {
        self.segs
            .iter()
            .map(|s| match s {
                Seg::Bytes(b) => Fragment::Line { data: b.clone() },
                Seg::Lit { data, mode } => Fragment::Literal {
                    data: data.clone(),
                    mode: *mode,
                },
            })
            .collect()
    }
}

/// Printable rendering for reports.
pub fn show(b: &[u8]) -> String {
    let mut s = String::new();
    for &c in b.iter().take(2000) {
        match c {
            b'\r' => s.push_str("\\r"),
            b'\n' => s.push_str("\\n"),
            b'\\' => s.push_str("\\\\"),
            0x20..=0x7e => s.push(c as char),
            _ => s.push_str(&format!("\\x{c:02x}")),
        }
    }
    if b.len() > 2000 {
        s.push_str(&format!("...({} bytes)", b.len()));
    }
    s
}

pub fn b64(data: &[u8]) -> String {
    const T: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut out = String::new();
    for c in data.chunks(3) {
        let n = (c[0] as u32) << 16
            | (*c.get(1).unwrap_or(&0) as u32) << 8
            | *c.get(2).unwrap_or(&0) as u32;
        out.push(T[(n >> 18) as usize & 63] as char);
        out.push(T[(n >> 12) as usize & 63] as char);
        out.push(if c.len() > 1 { T[(n >> 6) as usize & 63] as char } else { '=' });
        out.push(if c.len() > 2 { T[n as usize & 63] as char } else { '=' });
    }
    out
}

/// Strict RFC 4648 decoder (canonical padding and trailing bits required).
pub fn unb64(s: &[u8]) -> Option<Vec<u8>> {
    if s.len() % 4 != 0 {
        return None;
    }
    let val = |c: u8| -> Option<u32> {
        Some(match c {
            b'A'..=b'Z' => c - b'A',
            b'a'..=b'z' => c - b'a' + 26,
            b'0'..=b'9' => c - b'0' + 52,
            b'+' => 62,
            b'/' => 63,
            _ => return None,
        } as u32)
    };
    let mut out = Vec::new();
    let n = s.len() / 4;
    for (i, c) in s.chunks(4).enumerate() {
        let pad = if i + 1 == n {
            c.iter().rev().take_while(|b| **b == b'=').count()
        } else {
            0
        };
        if pad > 2 {
            return None;
        }
        let mut x = 0;
        for k in 0..4 {
            x = x << 6 | if k >= 4 - pad { 0 } else { val(c[k])? };
        }
        if pad >= 1 && x & 0xff != 0 || pad == 2 && x & 0xffff != 0 {
            return None;
        }
        out.push((x >> 16) as u8);
        if pad < 2 {
            out.push((x >> 8) as u8);
        }
        if pad < 1 {
            out.push(x as u8);
        }
    }
    Some(out)
}
