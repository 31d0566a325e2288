//! Reference lexer: the Rust lexical grammar as proc-macro2 documents it,
//! written over a plain slice of chars. It shares no code with /repo. Offsets
//! are character offsets into the text.

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Delim {
    Paren,
    Brace,
    Bracket,
    None,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Tok {
    Group(Delim, Vec<TT>),
    Ident(String, bool),
    Punct(char, bool),
    Lit(String),
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct TT {
    pub t: Tok,
    pub lo: usize,
    pub hi: usize,
    /// The token comes from a doc comment that is directly followed by CR LF;
    /// whether the CR belongs to the comment's region is left open.
    pub cr: bool,
}

pub fn id_start(c: char) -> bool {
    c == '_' || unicode_ident::is_xid_start(c)
}

pub fn id_continue(c: char) -> bool {
    unicode_ident::is_xid_continue(c)
}

pub fn is_ws(c: char) -> bool {
    c.is_whitespace() || c == '\u{200e}' || c == '\u{200f}'
}

pub const PUNCT: &str = "~!@#$%^&*-=+|;:,<.>/?'";

pub fn is_punct(c: char) -> bool {
    PUNCT.contains(c)
}

pub fn forbidden_raw(s: &str) -> bool {
    matches!(s, "_" | "super" | "self" | "Self" | "crate")
}

pub struct Lexer<'a> {
    pub c: &'a [char],
}

impl<'a> Lexer<'a> {
    pub fn new(c: &'a [char]) -> Self {
        Lexer { c }
    }

    fn at(&self, i: usize) -> Option<char> {
        self.c.get(i).copied()
    }

    fn looking(&self, i: usize, s: &str) -> bool {
        let mut k = i;
        for ch in s.chars() {
            if self.at(k) != Some(ch) {
                return false;
            }
            k += 1;
        }
        true
    }

    fn text(&self, a: usize, b: usize) -> String {
        self.c[a..b].iter().collect()
    }

    /// End of the (possibly nested) block comment opened at `i`.
    fn block_end(&self, i: usize) -> Option<usize> {
        let mut level = 1usize;
        let mut k = i + 2;
        loop {
            match (self.at(k), self.at(k + 1)) {
                (Some('/'), Some('*')) => {
                    level += 1;
                    k += 2;
                }
                (Some('*'), Some('/')) => {
                    level -= 1;
                    k += 2;
                    if level == 0 {
                        return Some(k);
                    }
                }
                (Some(_), Some(_)) => k += 1,
                _ => return None,
            }
        }
    }

    /// Kind of the thing starting with a slash at `i`.
    fn comment_kind(&self, i: usize) -> Comment {
        if self.looking(i, "//") {
            if self.at(i + 2) == Some('!') {
                Comment::DocLine { inner: true }
            } else if self.at(i + 2) == Some('/') && self.at(i + 3) != Some('/') {
                Comment::DocLine { inner: false }
            } else {
                Comment::Line
            }
        } else if self.looking(i, "/*") {
            if self.at(i + 2) == Some('!') {
                Comment::DocBlock { inner: true }
            } else if self.at(i + 2) == Some('*')
                && self.at(i + 3) != Some('*')
                && self.at(i + 3) != Some('/')
            {
                Comment::DocBlock { inner: false }
            } else {
                Comment::Block
            }
        } else {
            Comment::No
        }
    }

    /// (content end, region end)
    fn line_end(&self, i: usize) -> (usize, bool) {
        let mut k = i;
        while let Some(ch) = self.at(k) {
            if ch == '\n' {
                return (k, false);
            }
            if ch == '\r' && self.at(k + 1) == Some('\n') {
                return (k, true);
            }
            k += 1;
        }
        (k, false)
    }

    fn ident_end(&self, i: usize) -> Option<usize> {
        if !self.at(i).is_some_and(id_start) {
            return None;
        }
        let mut k = i + 1;
        while self.at(k).is_some_and(id_continue) {
            k += 1;
        }
        Some(k)
    }

    fn suffix(&self, i: usize) -> usize {
        self.ident_end(i).unwrap_or(i)
    }

    /// Identifier or raw identifier at `i`, not regarding literal prefixes.
    fn any_ident(&self, i: usize) -> Option<(usize, String, bool)> {
        if self.looking(i, "r#") {
            let e = self.ident_end(i + 2)?;
            let s = self.text(i + 2, e);
            if forbidden_raw(&s) {
                return None;
            }
            Some((e, s, true))
        } else {
            let e = self.ident_end(i)?;
            Some((e, self.text(i, e), false))
        }
    }

    fn unicode_escape(&self, i: usize) -> Option<(usize, char)> {
        // after \u
        if self.at(i) != Some('{') {
            return None;
        }
        let mut k = i + 1;
        let mut digits = String::new();
        loop {
            match self.at(k)? {
                '_' if !digits.is_empty() => {}
                '}' => break,
                ch if ch.is_ascii_hexdigit() => digits.push(ch),
                _ => return None,
            }
            k += 1;
        }
        if digits.is_empty() || digits.len() > 6 {
            return None;
        }
        let v = u32::from_str_radix(&digits, 16).ok()?;
        Some((k + 1, char::from_u32(v)?))
    }

    fn hex2(&self, i: usize) -> Option<u8> {
        let a = self.at(i)?;
        let b = self.at(i + 1)?;
        if !a.is_ascii_hexdigit() || !b.is_ascii_hexdigit() {
            return None;
        }
        Some((a.to_digit(16)? * 16 + b.to_digit(16)?) as u8)
    }

    /// One escape, `i` is just after the backslash. `None`: malformed.
    fn escape(&self, i: usize, kind: Kind, in_string: bool) -> Option<usize> {
        match self.at(i)? {
            'x' => {
                let v = self.hex2(i + 1)?;
                match kind {
                    Kind::Text if v > 0x7f => return None,
                    Kind::C if v == 0 => return None,
                    _ => {}
                }
                Some(i + 3)
            }
            'n' | 'r' | 't' | '\\' | '\'' | '"' => Some(i + 1),
            '0' if kind != Kind::C => Some(i + 1),
            'u' if kind != Kind::Byte => {
                let (e, ch) = self.unicode_escape(i + 1)?;
                if kind == Kind::C && ch == '\0' {
                    return None;
                }
                Some(e)
            }
            '\n' | '\r' if in_string => {
                // Line continuation: white space up to the next other
                // character is skipped; CR only as part of CR LF.
                let mut k = i;
                loop {
                    match self.at(k)? {
                        ' ' | '\t' | '\n' => k += 1,
                        '\r' => {
                            if self.at(k + 1) != Some('\n') {
                                return None;
                            }
                            k += 2;
                        }
                        _ => return Some(k),
                    }
                }
            }
            _ => None,
        }
    }

    fn cooked(&self, open: usize, kind: Kind) -> Option<usize> {
        let mut k = open + 1;
        loop {
            let ch = self.at(k)?;
            k += 1;
            match ch {
                '"' => return Some(self.suffix(k)),
                '\r' => {
                    if self.at(k)? != '\n' {
                        return None;
                    }
                    k += 1;
                }
                '\\' => k = self.escape(k, kind, true)?,
                '\0' if kind == Kind::C => return None,
                c if kind == Kind::Byte && !c.is_ascii() => return None,
                _ => {}
            }
        }
    }

    fn raw(&self, after_r: usize, kind: Kind) -> Option<usize> {
        let mut k = after_r;
        while self.at(k) == Some('#') {
            k += 1;
        }
        let hashes = k - after_r;
        if self.at(k)? != '"' || hashes > 255 {
            return None;
        }
        k += 1;
        loop {
            let ch = self.at(k)?;
            k += 1;
            match ch {
                '"' => {
                    if (0..hashes).all(|h| self.at(k + h) == Some('#')) {
                        return Some(self.suffix(k + hashes));
                    }
                }
                '\r' => {
                    if self.at(k)? != '\n' {
                        return None;
                    }
                    k += 1;
                }
                '\0' if kind == Kind::C => return None,
                c if kind == Kind::Byte && !c.is_ascii() => return None,
                _ => {}
            }
        }
    }

    fn quoted_char(&self, open: usize, kind: Kind) -> Option<usize> {
        let k = open + 1;
        let e = match self.at(k)? {
            '\\' => self.escape(k + 1, kind, false)?,
            '\'' | '\n' | '\r' | '\t' => return None,
            c if kind == Kind::Byte && !c.is_ascii() => return None,
            _ => k + 1,
        };
        if self.at(e)? != '\'' {
            return None;
        }
        Some(self.suffix(e + 1))
    }

    fn run(&self, mut i: usize, f: impl Fn(char) -> bool) -> usize {
        while self.at(i).is_some_and(&f) {
            i += 1;
        }
        i
    }

    fn num_tail(&self, i: usize) -> Option<usize> {
        let e = self.suffix(i);
        if self.at(e).is_some_and(id_continue) {
            None
        } else {
            Some(e)
        }
    }

    fn number(&self, i: usize) -> Option<usize> {
        if !self.at(i).is_some_and(|c| c.is_ascii_digit()) {
            return None;
        }
        self.float(i)
            .and_then(|e| self.num_tail(e))
            .or_else(|| self.int(i).and_then(|e| self.num_tail(e)))
    }

    fn float(&self, i: usize) -> Option<usize> {
        let dig = |c: char| c.is_ascii_digit() || c == '_';
        let mut k = self.run(i, dig);
        let mut dot = false;
        if self.at(k) == Some('.') {
            match self.at(k + 1) {
                Some('.') => return None,
                Some(c) if id_start(c) => return None,
                _ => {}
            }
            dot = true;
            k = self.run(k + 1, dig);
        }
        if matches!(self.at(k), Some('e' | 'E')) {
            let mut m = self.run(k + 1, |c| c == '_');
            if matches!(self.at(m), Some('+' | '-')) {
                m = self.run(m + 1, |c| c == '_');
            }
            if self.at(m).is_some_and(|c| c.is_ascii_digit()) {
                return Some(self.run(m, dig));
            }
        }
        if dot {
            Some(k)
        } else {
            None
        }
    }

    fn int(&self, i: usize) -> Option<usize> {
        let (start, base) = if self.looking(i, "0x") {
            (i + 2, 16)
        } else if self.looking(i, "0o") {
            (i + 2, 8)
        } else if self.looking(i, "0b") {
            (i + 2, 2)
        } else {
            (i, 10)
        };
        let mut k = start;
        let mut any = false;
        while let Some(c) = self.at(k) {
            if c == '_' {
                k += 1;
                continue;
            }
            if c.is_ascii_digit() && c.to_digit(10).unwrap() >= base {
                return None;
            }
            if c.is_digit(base) {
                any = true;
                k += 1;
            } else {
                break;
            }
        }
        if any {
            Some(k)
        } else {
            None
        }
    }

    /// End of the literal token at `i`, if there is a well formed one.
    pub fn literal_end(&self, i: usize) -> Option<usize> {
        match self.at(i)? {
            '"' => self.cooked(i, Kind::Text),
            '\'' => self.quoted_char(i, Kind::Text),
            'r' => self.raw(i + 1, Kind::Text),
            'b' => match self.at(i + 1)? {
                '"' => self.cooked(i + 1, Kind::Byte),
                '\'' => self.quoted_char(i + 1, Kind::Byte),
                'r' => self.raw(i + 2, Kind::Byte),
                _ => None,
            },
            'c' => match self.at(i + 1)? {
                '"' => self.cooked(i + 1, Kind::C),
                'r' => self.raw(i + 2, Kind::C),
                _ => None,
            },
            c if c.is_ascii_digit() => self.number(i),
            _ => None,
        }
    }

    /// A literal prefix that cannot start an identifier.
    fn literal_prefix(&self, i: usize) -> bool {
        [
            "r\"", "r#\"", "r##", "b\"", "b'", "br\"", "br#", "c\"", "cr\"", "cr#",
        ]
        .iter()
        .any(|p| self.looking(i, p))
    }

    /// The quote of a lifetime at `i`: returns the identifier after it.
    fn lifetime(&self, i: usize) -> Option<(usize, String, bool)> {
        let (e, s, raw) = self.any_ident(i + 1)?;
        match self.at(e) {
            Some('\'') => None,
            Some('#') if !raw => None,
            _ => Some((e, s, raw)),
        }
    }

    fn punct_at(&self, i: usize) -> bool {
        match self.at(i) {
            Some('/') => self.comment_kind(i) == Comment::No,
            Some('\'') => self.literal_end(i).is_none(),
            Some(c) => is_punct(c),
            None => false,
        }
    }

    /// The whole text as a token stream, or the offset of the error.
    pub fn stream(&self) -> Result<Vec<TT>, usize> {
        let mut i = usize::from(self.at(0) == Some('\u{feff}'));
        let mut out: Vec<TT> = Vec::new();
        let mut open: Vec<(Delim, usize, Vec<TT>)> = Vec::new();
        loop {
            let Some(ch) = self.at(i) else {
                return match open.last() {
                    None => Ok(out),
                    Some(o) => Err(o.1),
                };
            };
            if is_ws(ch) {
                i += 1;
                continue;
            }
            if ch == '/' {
                match self.comment_kind(i) {
                    Comment::Line => {
                        i = self.line_end(i).0;
                        continue;
                    }
                    Comment::Block => {
                        i = self.block_end(i).ok_or(i)?;
                        continue;
                    }
                    Comment::DocLine { inner } => {
                        let (e, cr) = self.line_end(i + 3);
                        let s = &self.c[i + 3..e];
                        self.doc(&mut out, s, inner, i, e, cr)?;
                        i = e;
                        continue;
                    }
                    Comment::DocBlock { inner } => {
                        let e = self.block_end(i).ok_or(i)?;
                        let s = &self.c[i + 3..e - 2];
                        self.doc(&mut out, s, inner, i, e, false)?;
                        i = e;
                        continue;
                    }
                    Comment::No => {}
                }
            }
            if self.looking(i, "(/*ERROR*/)") {
                out.push(tt(Tok::Lit("(/*ERROR*/)".to_owned()), i, i + 11));
                i += 11;
                continue;
            }
            let d = |c| match c {
                '(' | ')' => Delim::Paren,
                '[' | ']' => Delim::Bracket,
                _ => Delim::Brace,
            };
            match ch {
                '(' | '[' | '{' => {
                    open.push((d(ch), i, std::mem::take(&mut out)));
                    i += 1;
                }
                ')' | ']' | '}' => {
                    let Some((delim, lo, outer)) = open.pop() else {
                        return Err(i);
                    };
                    if delim != d(ch) {
                        return Err(i);
                    }
                    i += 1;
                    let inner = std::mem::replace(&mut out, outer);
                    out.push(tt(Tok::Group(delim, inner), lo, i));
                }
                _ => {
                    if let Some(e) = self.literal_end(i) {
                        out.push(tt(Tok::Lit(self.text(i, e)), i, e));
                        i = e;
                    } else if ch == '\'' {
                        let (e, s, raw) = self.lifetime(i).ok_or(i)?;
                        out.push(tt(Tok::Punct('\'', true), i, i + 1));
                        out.push(tt(Tok::Ident(s, raw), i + 1, e));
                        i = e;
                    } else if is_punct(ch) {
                        out.push(tt(Tok::Punct(ch, self.punct_at(i + 1)), i, i + 1));
                        i += 1;
                    } else if !self.literal_prefix(i) {
                        let (e, s, raw) = self.any_ident(i).ok_or(i)?;
                        out.push(tt(Tok::Ident(s, raw), i, e));
                        i = e;
                    } else {
                        return Err(i);
                    }
                }
            }
        }
    }

    fn doc(
        &self,
        out: &mut Vec<TT>,
        s: &[char],
        inner: bool,
        lo: usize,
        hi: usize,
        cr: bool,
    ) -> Result<(), usize> {
        for (k, &c) in s.iter().enumerate() {
            if c == '\r' && s.get(k + 1) != Some(&'\n') {
                return Err(lo);
            }
        }
        let mk = |t| TT { t, lo, hi, cr };
        out.push(mk(Tok::Punct('#', false)));
        if inner {
            out.push(mk(Tok::Punct('!', false)));
        }
        let value: String = s.iter().collect();
        out.push(mk(Tok::Group(
            Delim::Bracket,
            vec![
                mk(Tok::Ident("doc".to_owned(), false)),
                mk(Tok::Punct('=', false)),
                mk(Tok::Lit(format!("{DOC_MARK}{value}"))),
            ],
        )));
        Ok(())
    }
}

/// Marks, in `Tok::Lit` of a reference stream, a literal that must *denote*
/// the rest of the text (a doc comment's content) in whatever spelling.
pub const DOC_MARK: char = '\u{10ffff}';

fn tt(t: Tok, lo: usize, hi: usize) -> TT {
    TT {
        t,
        lo,
        hi,
        cr: false,
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Kind {
    Text,
    Byte,
    C,
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Comment {
    No,
    Line,
    Block,
    DocLine { inner: bool },
    DocBlock { inner: bool },
}

/// Whether `s`, whole, is what `Literal::from_str` must accept.
pub fn whole_literal(s: &str) -> bool {
    let c: Vec<char> = s.chars().collect();
    let lx = Lexer::new(&c);
    if c.first() == Some(&'-') {
        c.get(1).is_some_and(|d| d.is_ascii_digit()) && lx.literal_end(1) == Some(c.len())
    } else {
        !c.is_empty() && lx.literal_end(0) == Some(c.len())
    }
}
