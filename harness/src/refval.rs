//! What a literal token's text denotes, by the rules of the Rust reference.
//! Shares no code with /repo.

#[derive(Clone, PartialEq, Debug)]
pub enum Val {
    Str(String),
    Bytes(Vec<u8>),
    /// without the trailing NUL
    CStr(Vec<u8>),
    Char(char),
    Byte(u8),
    /// decimal digits or `None` when it does not fit u128
    Int(Option<u128>),
    /// digits as Rust's float parser takes them
    Float(String),
}

#[derive(Clone, PartialEq, Debug)]
pub struct Decoded {
    pub val: Val,
    pub suffix: String,
    pub negative: bool,
}

enum Unit {
    Ch(char),
    Byte(u8),
    Skip,
}

/// Decodes one escape; `s` starts after the backslash.
fn escape(s: &[char]) -> Option<(Unit, usize)> {
    let c = *s.first()?;
    let simple = |ch| Some((Unit::Ch(ch), 1));
    match c {
        'n' => simple('\n'),
        'r' => simple('\r'),
        't' => simple('\t'),
        '\\' => simple('\\'),
        '0' => simple('\0'),
        '\'' => simple('\''),
        '"' => simple('"'),
        'x' => {
            let t: String = s.get(1..3)?.iter().collect();
            Some((Unit::Byte(u8::from_str_radix(&t, 16).ok()?), 3))
        }
        'u' => {
            let close = s.iter().position(|&c| c == '}')?;
            let t: String = s.get(2..close)?.iter().filter(|c| **c != '_').collect();
            Some((
                Unit::Ch(char::from_u32(u32::from_str_radix(&t, 16).ok()?)?),
                close + 1,
            ))
        }
        '\n' => {
            let n = s
                .iter()
                .position(|c| !matches!(c, ' ' | '\t' | '\n' | '\r'))
                .unwrap_or(s.len());
            Some((Unit::Skip, n))
        }
        _ => None,
    }
}

fn cooked(body: &[char]) -> Option<Vec<Unit>> {
    let mut out = Vec::new();
    let mut i = 0;
    while i < body.len() {
        if body[i] == '\\' {
            let (u, n) = escape(&body[i + 1..])?;
            out.push(u);
            i += 1 + n;
        } else {
            out.push(Unit::Ch(body[i]));
            i += 1;
        }
    }
    Some(out)
}

fn to_text(u: Vec<Unit>) -> Option<String> {
    let mut s = String::new();
    for u in u {
        match u {
            Unit::Ch(c) => s.push(c),
            Unit::Byte(b) if b < 0x80 => s.push(b as char),
            Unit::Byte(_) => return None,
            Unit::Skip => {}
        }
    }
    Some(s)
}

fn to_bytes(u: Vec<Unit>) -> Vec<u8> {
    let mut v = Vec::new();
    for u in u {
        match u {
            Unit::Ch(c) => v.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes()),
            Unit::Byte(b) => v.push(b),
            Unit::Skip => {}
        }
    }
    v
}

/// `text` must be one well formed literal token (a minus sign is allowed in
/// front of a number). CR LF counts as LF, as in all Rust source text.
pub fn decode(text: &str) -> Option<Decoded> {
    let c: Vec<char> = text.replace("\r\n", "\n").chars().collect();
    let mut p = 0;
    let negative = c.first() == Some(&'-');
    if negative {
        p = 1;
    }
    let first = *c.get(p)?;
    if first.is_ascii_digit() {
        return number(&c[p..], negative);
    }
    if negative {
        return None;
    }
    let mut prefix = String::new();
    while let Some(&ch) = c.get(p) {
        if matches!(ch, 'b' | 'c' | 'r') {
            prefix.push(ch);
            p += 1;
        } else {
            break;
        }
    }
    let raw = prefix.ends_with('r');
    let mut hashes = 0;
    while raw && c.get(p) == Some(&'#') {
        hashes += 1;
        p += 1;
    }
    let quote = *c.get(p)?;
    if quote != '"' && quote != '\'' {
        return None;
    }
    p += 1;
    // the closing quote is the last one: suffixes contain no quotes
    let close = c.iter().rposition(|&x| x == quote)?;
    if close < p {
        return None;
    }
    let body = &c[p..close];
    let after = close + 1 + hashes;
    if after > c.len() || c[close + 1..after].iter().any(|&x| x != '#') {
        return None;
    }
    let suffix: String = c[after..].iter().collect();
    let val = if quote == '\'' {
        let u = cooked(body)?;
        match prefix.as_str() {
            "" => {
                let t = to_text(u)?;
                let mut it = t.chars();
                let ch = it.next()?;
                if it.next().is_some() {
                    return None;
                }
                Val::Char(ch)
            }
            "b" => {
                let t = to_bytes(u);
                if t.len() != 1 {
                    return None;
                }
                Val::Byte(t[0])
            }
            _ => return None,
        }
    } else if raw {
        let t: String = body.iter().collect();
        match prefix.as_str() {
            "r" => Val::Str(t),
            "br" => Val::Bytes(t.into_bytes()),
            "cr" => Val::CStr(t.into_bytes()),
            _ => return None,
        }
    } else {
        let u = cooked(body)?;
        match prefix.as_str() {
            "" => Val::Str(to_text(u)?),
            "b" => Val::Bytes(to_bytes(u)),
            "c" => Val::CStr(to_bytes(u)),
            _ => return None,
        }
    };
    Some(Decoded {
        val,
        suffix,
        negative: false,
    })
}

fn number(c: &[char], negative: bool) -> Option<Decoded> {
    let s: String = c.iter().collect();
    let (radix, rest) = match s.get(..2) {
        Some("0x") => (16, &s[2..]),
        Some("0o") => (8, &s[2..]),
        Some("0b") => (2, &s[2..]),
        _ => (10, &s[..]),
    };
    let intlen = rest
        .find(|ch: char| !(ch == '_' || ch.is_digit(radix)))
        .unwrap_or(rest.len());
    let tail = &rest[intlen..];
    let mut exp = false;
    if radix == 10 {
        let t = tail.trim_start_matches(['e', 'E']);
        if t.len() < tail.len() {
            let t = t.trim_start_matches('_');
            let t = t.strip_prefix(['+', '-']).unwrap_or(t).trim_start_matches('_');
            exp = t.starts_with(|x: char| x.is_ascii_digit());
        }
    }
    if radix == 10 && (tail.starts_with('.') || exp) {
        // float
        let mut num = String::new();
        let mut it = rest.char_indices().peekable();
        let mut end = rest.len();
        let mut in_exp = false;
        while let Some((i, ch)) = it.next() {
            match ch {
                '0'..='9' => num.push(ch),
                '_' => {}
                '.' if !in_exp => num.push(ch),
                'e' | 'E' if !in_exp => {
                    let t = rest[i + 1..].trim_start_matches('_');
                    let t = t.strip_prefix(['+', '-']).unwrap_or(t).trim_start_matches('_');
                    if !t.starts_with(|x: char| x.is_ascii_digit()) {
                        end = i;
                        break;
                    }
                    in_exp = true;
                    num.push('e');
                }
                '+' | '-' if in_exp => num.push(ch),
                _ => {
                    end = i;
                    break;
                }
            }
        }
        return Some(Decoded {
            val: Val::Float(num),
            suffix: rest[end..].to_owned(),
            negative,
        });
    }
    let digits: String = rest[..intlen].chars().filter(|c| *c != '_').collect();
    let suffix = tail.to_owned();
    if suffix == "f32" || suffix == "f64" {
        return Some(Decoded {
            val: Val::Float(digits),
            suffix,
            negative,
        });
    }
    Some(Decoded {
        val: Val::Int(u128::from_str_radix(&digits, radix).ok()),
        suffix,
        negative,
    })
}
