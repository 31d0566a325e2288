//! Text and token generators. Choice 0 is always the simplest alternative.

use crate::engine::Src;
use crate::reflex::{self, Delim, Tok, TT};
use crate::model::plain;

pub const UNI: &[char] = &[
    'é', 'ß', '日', '本', '\u{301}', '\u{200e}', '\u{200f}', '\u{a0}', '\u{85}', '\u{2028}', '\u{3000}', '😀',
    '\u{10ffff}', '\u{feff}', 'ǅ', '·', '٣', '\u{e000}', '𝒳', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}',
    '\u{10000}', '\u{fe00}', '\u{200d}', '\u{1680}', '\u{180e}', '\u{2118}', '\u{309b}', '\u{e33}', '\u{37a}',
];

pub const HOT: &str = "'\"\\#/*!rbc01_ax.e-+\n\r \t({[)}]u9fE:=<>&|;,$?@^%~oS";

pub const IDENTS: &[&str] = &[
    "a", "x", "_", "b", "r", "c", "br", "cr", "self", "Self", "super", "crate", "fn", "e", "E", "f32", "u8", "_1",
    "doc", "async", "rb", "bb", "static", "abc_1", "é", "日本", "𝒳y", "x\u{301}", "a·b", "raw", "__", "ECMA", "e1",
    "true", "union", "dyn", "i128", "ſ", "ª", "usize", "cr1", "b_", "in", "as",
];

/// Keywords of all editions, and other names with a meaning somewhere.
pub const WORDS: &[&str] = &[
    "as", "break", "const", "continue", "crate", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in", "let", "loop",
    "match", "mod", "move", "mut", "pub", "ref", "return", "self", "Self", "static", "struct", "super", "trait", "true", "type",
    "unsafe", "use", "where", "while", "async", "await", "dyn", "abstract", "become", "box", "do", "final", "macro", "override",
    "priv", "typeof", "unsized", "virtual", "yield", "try", "gen", "macro_rules", "raw", "safe", "union", "default", "auto",
    "catch", "builtin", "reuse", "bool", "char", "str", "u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64",
    "i128", "isize", "f16", "f32", "f64", "f128", "inf", "NaN", "nan", "infinity", "null", "nul", "doc", "cfg", "derive", "test",
    "allow", "inline", "r", "b", "c", "br", "cr", "rb", "rc", "bc", "f", "s", "x", "e", "E", "o", "u", "_", "__", "main", "std",
    "core", "alloc", "proc_macro", "proc_macro2", "quote", "syn", "rustc", "dollar_crate", "ERROR", "error", "None", "Some", "Ok", "Err",
];

/// The constants written in the code under test (see check.py): whatever it
/// distinguishes is worth trying.
pub struct Dict {
    pub strs: Vec<String>,
    pub chars: Vec<char>,
    pub nums: Vec<u64>,
}

pub fn dict() -> &'static Dict {
    static D: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let mut d = Dict {
            strs: Vec::new(),
            chars: Vec::new(),
            nums: Vec::new(),
        };
        let text = std::env::var("VH_DICT").ok().and_then(|f| std::fs::read_to_string(f).ok()).unwrap_or_default();
        for l in text.lines() {
            match l.split_once(' ') {
                Some(("S", x)) => {
                    let b: Option<Vec<u8>> = (0..x.len() / 2).map(|i| u8::from_str_radix(x.get(2 * i..2 * i + 2)?, 16).ok()).collect();
                    d.strs.extend(b.and_then(|b| String::from_utf8(b).ok()));
                }
                Some(("C", x)) => d.chars.extend(x.parse().ok().and_then(char::from_u32)),
                Some(("N", x)) => d.nums.extend(x.parse::<u64>()),
                _ => {}
            }
        }
        if d.strs.is_empty() {
            d.strs.push("doc".to_owned());
        }
        if d.chars.is_empty() {
            d.chars.push('a');
        }
        if d.nums.is_empty() {
            d.nums.push(32);
        }
        d
    })
}

/// Near a constant of the code under test, if one is small enough.
fn dict_size(s: &mut Src, max: usize) -> usize {
    let n = *s.pick(&dict().nums) as usize;
    let n = n.saturating_add(s.below(4)).saturating_sub(2);
    if n > max {
        s.below(64)
    } else {
        n
    }
}

pub fn dict_num(s: &mut Src) -> u64 {
    s.pick(&dict().nums).wrapping_add(s.below(3) as u64).wrapping_sub(1)
}

pub fn dict_str(s: &mut Src) -> &'static str {
    if s.chance(1, 3) {
        WORDS[s.below(WORDS.len())]
    } else {
        s.pick(&dict().strs)
    }
}

pub const KEYWORDISH: &[&str] = &["_", "super", "self", "Self", "crate"];

/// Inside a macro only characters on whose treatment in identifiers the
/// compiler (which normalises them) and the library agree.
pub fn pm_char(c: char) -> bool {
    c.is_ascii()
        || matches!(c, '\u{c0}'..='\u{d6}' | '\u{d8}'..='\u{f6}' | '\u{f8}'..='\u{17f}' | '\u{400}'..='\u{481}' | '\u{48a}'..='\u{52f}' | '\u{4e00}'..='\u{9fa5}' | '\u{ac00}'..='\u{d7a3}')
}

fn pm_only(c: char) -> char {
    if cfg!(any(feature = "pm", feature = "bare")) && !pm_char(c) {
        'é'
    } else {
        c
    }
}

pub fn any_char(s: &mut Src) -> char {
    pm_only(wide_char(s))
}

fn wide_char(s: &mut Src) -> char {
    match s.below(9) {
        8 => *s.pick(&dict().chars),
        0 => (b'a' + s.below(26) as u8) as char,
        1 | 2 => {
            let h: Vec<char> = HOT.chars().collect();
            *s.pick(&h)
        }
        3 => *s.pick(UNI),
        4 => char::from_u32(s.below(0x80) as u32).unwrap(),
        5 => char::from_u32(s.below(0x250) as u32).unwrap_or('x'),
        6 => char::from_u32(s.below(0x3000) as u32).unwrap_or('x'),
        _ => char::from_u32(s.below(0x110000) as u32).unwrap_or('x'),
    }
}

pub fn hot_char(s: &mut Src) -> char {
    if s.chance(1, 12) {
        return any_char(s);
    }
    let b = HOT.as_bytes();
    b[s.below(b.len())] as char
}

pub fn hot(s: &mut Src) -> String {
    let n = s.skewed(24);
    (0..n).map(|_| hot_char(s)).collect()
}

pub fn ident_name(s: &mut Src) -> String {
    match s.below(5) {
        4 => {
            let w = dict_str(s);
            let mut it = w.chars();
            let ok = it.next().is_some_and(reflex::id_start) && it.all(reflex::id_continue);
            (if ok { w } else { WORDS[s.below(WORDS.len())] }).chars().map(pm_only).collect()
        }
        0 | 1 => s.pick(IDENTS).chars().map(pm_only).collect(),
        2 => {
            let n = s.range(1, 6);
            let mut o = String::new();
            for i in 0..n {
                let set: &[u8] = if i == 0 { b"abrcexyz_ABTES" } else { b"abrcex019_zETS" };
                o.push(set[s.below(set.len())] as char);
            }
            o
        }
        _ => {
            // some Unicode identifier
            let mut o = String::new();
            let n = s.range(1, 4);
            for i in 0..n {
                let c = any_char(s);
                let ok = if i == 0 { reflex::id_start(c) } else { reflex::id_continue(c) };
                o.push(if ok { c } else { 'a' });
            }
            o
        }
    }
}

pub fn raw_ok(s: &str) -> bool {
    !reflex::forbidden_raw(s)
}

/// identifier spelled in source, maybe raw
pub fn ident_text(s: &mut Src) -> String {
    let n = ident_name(s);
    if s.chance(1, 6) {
        format!("r#{n}")
    } else {
        n
    }
}

fn hexdigits(s: &mut Src, n: usize) -> String {
    (0..n).map(|_| b"0123456789abcdefABCDEF"[s.below(22)] as char).collect()
}

/// A piece of the inside of a quoted literal. kind: 0 text, 1 byte, 2 C.
fn piece(s: &mut Src, kind: usize, string: bool, sloppy: bool) -> String {
    let bad = sloppy && s.chance(1, 6);
    if bad {
        return match s.below(14) {
            0 => "\\".to_owned(),
            1 => format!("\\x{}", hexdigits(s, 2)),
            2 => "\\u{110000}".to_owned(),
            3 => "\\u{d800}".to_owned(),
            4 => "\\u{}".to_owned(),
            5 => format!("\\u{{{}}}", hexdigits(s, 7)),
            6 => "\r".to_owned(),
            7 => "\0".to_owned(),
            8 => "é".to_owned(),
            9 => "\\q".to_owned(),
            10 => "\\x0".to_owned(),
            11 => "\\u{_1}".to_owned(),
            12 => "\"".to_owned(),
            _ => "\\\r".to_owned(),
        };
    }
    match s.below(12) {
        0 | 1 | 2 => {
            let set: &[u8] = if string { b"az0179 '{}#/*_-." } else { b"az0179 \"{}#/*_-." };
            (set[s.below(set.len())] as char).to_string()
        }
        3 => format!("\\{}", ["n", "r", "t", "\\", "'", "\""][s.below(6)]),
        4 => {
            if kind == 2 {
                "\\x01".to_owned()
            } else {
                "\\0".to_owned()
            }
        }
        5 => match kind {
            0 => format!("\\x{}{}", s.below(8), hexdigits(s, 1)),
            1 => format!("\\x{}", hexdigits(s, 2)),
            _ => format!("\\x{}{}", hexdigits(s, 1), b"123456789abcdefABCDEF"[s.below(21)] as char),
        },
        6 | 7 if kind != 1 => {
            let c = loop_char(s, kind == 2);
            let mut h = if s.chance(1, 2) { format!("{:x}", c as u32) } else { format!("{:X}", c as u32) };
            while h.len() < 6 && s.chance(1, 3) {
                h.insert(0, '0');
            }
            if s.chance(1, 4) {
                let p = s.range(1, h.len());
                h.insert_str(p, if s.chance(1, 3) { "__" } else { "_" });
            }
            format!("\\u{{{h}}}")
        }
        8 if string => {
            let nl = if s.chance(1, 3) { "\r\n" } else { "\n" };
            let mut o = format!("\\{nl}");
            for _ in 0..s.below(4) {
                o.push_str([" ", "\t", "\n", "\r\n"][s.below(4)]);
            }
            o
        }
        9 if string => ["\n", "\r\n", "\t"][s.below(3)].to_owned(),
        10 if kind != 1 => {
            let c = any_char(s);
            if matches!(c, '"' | '\'' | '\\' | '\r' | '\n' | '\t' | '\0') {
                "z".to_owned()
            } else {
                c.to_string()
            }
        }
        _ => {
            let c = (0x20 + s.below(0x5f) as u8) as char;
            if matches!(c, '"' | '\\' | '\'') {
                format!("\\{c}")
            } else {
                c.to_string()
            }
        }
    }
}

fn loop_char(s: &mut Src, nonzero: bool) -> char {
    let c = any_char(s);
    if nonzero && c == '\0' {
        'a'
    } else {
        c
    }
}

pub fn suffix(s: &mut Src) -> String {
    if s.chance(1, 4) {
        match s.below(3) {
            0 => ident_name(s),
            _ => ["u8", "i32", "f64", "_", "x", "e", "usize", "r", "b", "f32", "suffix"][s.below(11)].to_owned(),
        }
    } else {
        String::new()
    }
}

fn digs(s: &mut Src, set: &[u8], max: usize) -> String {
    let n = s.range(1, max);
    (0..n).map(|_| set[s.below(set.len())] as char).collect()
}

pub fn number(s: &mut Src) -> String {
    let dec: &[u8] = b"0123456789_";
    let d0 = |s: &mut Src| -> String {
        let mut o = (b'0' + s.below(10) as u8).to_string();
        o.clear();
        o.push((b'0' + s.below(10) as u8) as char);
        if s.chance(1, 2) {
            o.push_str(&digs(s, dec, 5));
        }
        o
    };
    match s.below(7) {
        0 | 1 => format!("{}{}", d0(s), suffix(s)),
        2 => {
            let (p, set): (&str, &[u8]) = *s.pick(&[
                ("0x", b"0123456789abcdefABCDEF_" as &[u8]),
                ("0o", b"01234567_"),
                ("0b", b"01_"),
            ]);
            let mut b = digs(s, set, 6);
            if b.bytes().all(|c| c == b'_') {
                b.push('1');
            }
            format!("{p}{b}{}", suffix(s))
        }
        3 => {
            let mut o = format!("{}.", d0(s));
            if s.chance(3, 4) {
                o.push((b'0' + s.below(10) as u8) as char);
                if s.chance(1, 2) {
                    o.push_str(&digs(s, dec, 4));
                }
                o.push_str(&suffix(s));
            }
            o
        }
        4 | 5 => {
            let mut o = d0(s);
            if s.chance(1, 2) {
                o.push('.');
                o.push((b'0' + s.below(10) as u8) as char);
            }
            o.push(['e', 'E'][s.below(2)]);
            o.push_str(["", "_", "+", "-", "_-", "+_", "__", "-__"][s.below(8)]);
            o.push_str(&digs(s, b"0123456789", 3));
            if s.chance(1, 3) {
                o.push('_');
            }
            o.push_str(&suffix(s));
            o
        }
        _ => {
            // sloppy
            let n = s.range(1, 7);
            let set = b"01289._eE+-xobafu";
            let mut o = String::from("0");
            for _ in 0..n {
                o.push(set[s.below(set.len())] as char);
            }
            o
        }
    }
}

/// A literal; mostly valid, sometimes sloppy.
pub fn literal(s: &mut Src, sloppy: bool) -> String {
    match s.below(8) {
        0 | 1 => number(s),
        2 | 3 => {
            let kind = s.below(3);
            let mut o = ["\"", "b\"", "c\""][kind].to_owned();
            for _ in 0..s.skewed(10) {
                o.push_str(&piece(s, kind, true, sloppy));
            }
            if !(sloppy && s.chance(1, 15)) {
                o.push('"');
            }
            // a line continuation must not be last
            if o.ends_with('"') {
                o.push_str(&suffix(s));
            }
            o
        }
        4 => {
            let kind = s.below(3);
            let mut o = ["r", "br", "cr"][kind].to_owned();
            let h = match s.below(6) {
                0 => 0,
                1 | 2 => 1,
                3 => 2,
                4 => s.below(6),
                _ => [255, 254, 256, 128, 16][s.below(5)],
            };
            let h = if sloppy { h } else { h.min(255) };
            for _ in 0..h {
                o.push('#');
            }
            o.push('"');
            for _ in 0..s.skewed(8) {
                match s.below(9) {
                    0..=2 => o.push((b"az09\\'{}/*"[s.below(10)]) as char),
                    3 if h > 0 => {
                        o.push('"');
                        for _ in 0..s.below(h.min(4)) {
                            o.push('#');
                        }
                        o.push('z');
                    }
                    4 => o.push('#'),
                    5 => o.push_str(["\n", "\r\n", "\t"][s.below(3)]),
                    6 if kind != 1 => {
                        let c = any_char(s);
                        if !matches!(c, '"' | '\r' | '\0') {
                            o.push(c);
                        }
                    }
                    7 if sloppy => o.push(['\r', '\0', 'é', '"'][s.below(4)]),
                    _ => o.push_str("\\n"),
                }
            }
            o.push('"');
            let close = if sloppy && s.chance(1, 8) { h.saturating_sub(1) } else { h };
            for _ in 0..close {
                o.push('#');
            }
            o.push_str(&suffix(s));
            o
        }
        5 | 6 => {
            let byte = s.chance(1, 3);
            let mut o = if byte { "b'" } else { "'" }.to_owned();
            o.push_str(&piece(s, usize::from(byte), false, sloppy));
            if sloppy && s.chance(1, 10) {
                o.push_str(&piece(s, usize::from(byte), false, sloppy));
            }
            if !(sloppy && s.chance(1, 12)) {
                o.push('\'');
                o.push_str(&suffix(s));
            }
            o
        }
        _ => ["1", "\"\"", "'a'", "b'x'", "1.5", "\"(/*\"", "0", "c\"\""][s.below(8)].to_owned(),
    }
}

fn comment_body(s: &mut Src) -> String {
    let mut o = String::new();
    for _ in 0..s.skewed(8) {
        o.push_str([
            "a", " ", "*", "/", "!", "\"", "'", "\\", "(", ")", "é", "\t", "日", "{", "\r", "#", "\r\n", "\n", "\0", "r#\"",
        ][s.below(20)]);
    }
    o
}

/// white space or a plain comment
pub fn trivia(s: &mut Src) -> String {
    match s.below(12) {
        0..=5 => " ".to_owned(),
        6 => ["\n", "\t", "\r\n", "  ", "\r", "\u{b}", "\u{c}"][s.below(7)].to_owned(),
        7 => ["\u{200e}", "\u{200f}", "\u{85}", "\u{2028}", "\u{2029}", "\u{a0}", "\u{3000}", "\u{2003}"][s.below(8)].to_owned(),
        8 => {
            let b = comment_body(s).replace('\n', "");
            let lead = ["// ", "////", "// !", "//a"][s.below(4)];
            format!("{lead}{b}{}", ["\n", "\r\n"][s.below(2)])
        }
        9 | 10 => {
            let open = ["/* ", "/***", "/*a", "/* *"][s.below(4)];
            block(s, open, 2)
        }
        _ => "/**/".to_owned(),
    }
}

fn block(s: &mut Src, open: &str, depth: usize) -> String {
    let mut o = open.to_owned();
    for _ in 0..s.below(3) {
        o.push_str(&comment_body(s).replace("*/", "").replace("/*", ""));
        // avoid accidental markers at the seams
        o.push(' ');
        if depth > 0 && s.chance(1, 3) {
            let open = ["/*", "/**", "/*!"][s.below(3)];
            o.push_str(&block(s, open, depth - 1));
        }
    }
    o.push_str([" */", "**/", "a*/"][s.below(3)]);
    o
}

pub fn doc_comment(s: &mut Src) -> String {
    let mut body = comment_body(s);
    if !s.chance(1, 6) {
        body = body.replace("\r\n", "\n").replace('\r', "").replace('\n', "\r\n");
    }
    match s.below(4) {
        0 | 1 => {
            let b = body.replace("\r\n", " ").replace('\n', " ");
            format!("{}{b}{}", ["///", "//!", "/// "][s.below(3)], ["\n", "\r\n"][s.below(2)])
        }
        _ => {
            let b = body.replace("*/", "").replace("/*", "");
            format!("{}{b}*/", ["/** ", "/*!", "/**a"][s.below(3)])
        }
    }
}

pub fn lifetime(s: &mut Src) -> String {
    format!("'{}", ident_text(s))
}

fn group(s: &mut Src, depth: usize, sloppy: bool) -> String {
    let (a, b) = *s.pick(&[("(", ")"), ("[", "]"), ("{", "}")]);
    let inner = seq(s, depth - 1, 6, sloppy);
    if sloppy && s.chance(1, 25) {
        let b = *s.pick(&[")", "]", "}", ""]);
        return format!("{a}{inner}{b}");
    }
    format!("{a}{inner}{b}")
}

pub const OPS: &[&str] = &[
    "+", "+=", "=>", "->", "::", "..", "..=", "...", "&&", "||", "<<=", ">>", "<-", "!", "#", "#!", "$", "?", "@", "~",
    "^=", "%", "*", "-", "/", "/=", ",", ";", ":", ".", "<", ">", "==", "!=", "&", "|", "=", "*=", "$$", "~>", "-/", "*/",
];

pub fn one(s: &mut Src, depth: usize, sloppy: bool) -> String {
    match s.below(16) {
        0..=3 => ident_text(s),
        4..=6 => OPS[s.below(OPS.len())].to_owned(),
        7..=10 => literal(s, sloppy),
        11 => lifetime(s),
        12 | 13 if depth > 0 => group(s, depth, sloppy),
        14 => doc_comment(s),
        15 if sloppy => match s.below(6) {
            0 => any_char(s).to_string(),
            1 => hot(s),
            2 => "(/*ERROR*/)".to_owned(),
            3 => "\u{feff}".to_owned(),
            4 => ["/*", "'", "r#", "b'", "r#\"", "\""][s.below(6)].to_owned(),
            _ => "''".to_owned(),
        },
        _ => ident_name(s),
    }
}

/// token texts with trivia in between, sometimes nothing
pub fn seq(s: &mut Src, depth: usize, max: usize, sloppy: bool) -> String {
    let n = s.skewed(max);
    let mut o = String::new();
    for i in 0..n {
        if i > 0 && !s.chance(1, 3) {
            o.push_str(&trivia(s));
        }
        o.push_str(&one(s, depth, sloppy));
        if o.len() > 4000 {
            break;
        }
    }
    if s.chance(1, 8) {
        o.push_str(&trivia(s));
    }
    o
}

pub fn tokens(s: &mut Src) -> String {
    let mut o = String::new();
    if s.chance(1, 30) {
        o.push('\u{feff}');
    }
    if s.chance(1, 10) {
        o.push_str(&trivia(s));
    }
    o.push_str(&seq(s, 4, 30, false));
    o
}

pub fn sloppy(s: &mut Src) -> String {
    seq(s, 3, 14, true)
}

pub fn mutated(s: &mut Src) -> String {
    let base = if s.chance(1, 4) { sloppy(s) } else { seq(s, 3, 10, false) };
    mutate(s, &base)
}

pub fn mutate(s: &mut Src, base: &str) -> String {
    let mut c: Vec<char> = base.chars().collect();
    for _ in 0..s.range(1, 3) {
        let n = c.len();
        match s.below(8) {
            0 if n > 0 => {
                c.remove(s.below(n));
            }
            1 => {
                let p = s.below(n + 1);
                let h = hot_char(s);
                c.insert(p, h);
            }
            2 if n > 0 => {
                let p = s.below(n);
                c[p] = hot_char(s);
            }
            3 if n > 1 => {
                let p = s.below(n - 1);
                c.swap(p, p + 1);
            }
            4 if n > 0 => {
                let p = s.below(n);
                let l = s.range(1, 4).min(n - p);
                let cut: Vec<char> = c[p..p + l].to_vec();
                let q = s.below(n + 1);
                for (k, x) in cut.into_iter().enumerate() {
                    c.insert(q + k, x);
                }
            }
            5 if n > 0 => {
                let p = s.below(n);
                c.truncate(p);
            }
            6 if n > 0 => {
                let p = s.below(n);
                let l = s.range(1, 6).min(n - p);
                c.drain(p..p + l);
            }
            _ => {
                let f = if s.chance(1, 4) { dict_str(s) } else { FRAGS[s.below(FRAGS.len())] };
                let f: Vec<char> = f.chars().collect();
                let q = s.below(n + 1);
                for (k, x) in f.into_iter().enumerate() {
                    c.insert(q + k, x);
                }
            }
        }
    }
    c.into_iter().collect()
}

/// A text made long: runs of one character or piece, of a length around a
/// power of two, at one or two places of it.
pub fn stretched(s: &mut Src) -> String {
    stretched_to(s, 11)
}

pub fn stretched_to(s: &mut Src, max_pow: usize) -> String {
    let base = match s.below(6) {
        0 => tokens(s),
        1 => sloppy(s),
        2 => mutated(s),
        3 => literal(s, true),
        4 => frags(s),
        _ => {
            let mut o = trivia(s);
            o.push_str(&doc_comment(s));
            o
        }
    };
    stretch(s, &base, max_pow)
}

pub fn stretch(s: &mut Src, base: &str, max_pow: usize) -> String {
    let mut c: Vec<char> = base.chars().collect();
    for _ in 0..s.range(1, 2) {
        let at = s.below(c.len() + 1);
        let n = size(s, max_pow);
        let run: Vec<char> = match s.below(4) {
            0 if at > 0 => vec![c[at - 1]; n],
            1 if at < c.len() => vec![c[at]; n],
            2 => {
                let f = FRAGS[s.below(FRAGS.len())];
                let k = f.chars().count().max(1);
                f.repeat(n / k).chars().collect()
            }
            _ => {
                let f = ["a", " ", "é", "0", "_", "\n", "日", "#", "x ", "*", "/", "=", "\\n"][s.below(13)];
                let k = f.chars().count();
                f.repeat(n / k).chars().collect()
            }
        };
        c.splice(at..at, run);
    }
    c.into_iter().collect()
}

/// Fragments whose every adjacency is worth trying.
pub const FRAGS: &[&str] = &[
    " ", "\n", "\r\n", "\r", "a", "_", "r", "b", "c", "br", "cr", "r#", "r#a", "r##", "#", "'", "\"", "\\", "''", "\"\"",
    "'a", "'a'", "'b", "'r#a", "b'", "b'a'", "b\"", "c\"", "r\"", "r#\"", "\"#", "br\"", "cr#\"", "0", "1", "9", "0x",
    "0b", "0o", ".", "..", "e", "E", "1.", "1e", "1e5", "1.0", "-", "+", "e+", "f32", "u8", "0xe", "0b1", "/", "//", "///",
    "////", "//!", "/*", "*/", "/**", "/***", "/*!", "/**/", "*", "!", "(", ")", "[", "]", "{", "}", "(/*ERROR*/)", "é",
    "\u{301}", "·", "\u{feff}", "\u{200e}", "\u{a0}", "😀", "\0", ",", ";", "=", "<", ">", "&", "$", "@", "\\n", "\\x", "\\x7f",
    "\\xff", "\\u{", "\\u{61}", "\\0", "\\\n", "self", "crate", "fn", "doc", "\t",
];

pub fn frags(s: &mut Src) -> String {
    let n = s.range(1, 9);
    (0..n).map(|_| if s.chance(1, 16) { dict_str(s) } else { FRAGS[s.below(FRAGS.len())] }).collect()
}

/// idx-th string over `alphabet` in length order: all of length 0, 1, 2, ...
pub fn nth_over(alphabet: &[&str], mut idx: u64) -> String {
    let k = alphabet.len() as u64;
    let mut len = 0;
    let mut block = 1u64;
    while idx >= block {
        idx -= block;
        block = block.saturating_mul(k);
        len += 1;
    }
    let mut parts = Vec::with_capacity(len);
    for _ in 0..len {
        parts.push(alphabet[(idx % k) as usize]);
        idx /= k;
    }
    parts.concat()
}

pub fn total_over(k: u64, max: u32) -> u64 {
    (0..=max).map(|l| k.pow(l)).sum()
}

// ------------------------------------------------------------ model tokens

/// A valid literal text without leading minus.
pub fn valid_literal(s: &mut Src) -> String {
    for _ in 0..8 {
        let l = literal(s, false);
        if literal_ok(&l) && !l.starts_with('-') {
            return l;
        }
    }
    "1".to_owned()
}

/// A literal; inside a macro one that the compiler takes as well.
pub fn literal_ok(l: &str) -> bool {
    reflex::whole_literal(l) && (!cfg!(any(feature = "pm", feature = "bare")) || pm_literal(l))
}

pub fn pm_literal(l: &str) -> bool {
    if l.contains('\r') || !l.chars().all(pm_char) {
        return false;
    }
    let b = l.as_bytes();
    if b[0].is_ascii_digit() {
        return pm_number(l);
    }
    // no underscore as suffix
    !l.ends_with("\"_") && !l.ends_with("'_") && !l.ends_with("#_")
}

/// Numbers in the forms both sides read the same way.
pub fn pm_number(l: &str) -> bool {
    const SUFFIX: &[&str] = &["", "u8", "i32", "u128", "f64", "usize", "f32", "x", "r", "suffix"];
    let rest = if let Some(h) = l.strip_prefix("0x") {
        let r = h.trim_start_matches(|c: char| c.is_ascii_hexdigit() || c == '_');
        if !h[..h.len() - r.len()].contains(|c: char| c.is_ascii_hexdigit()) {
            return false;
        }
        return matches!(r, "" | "u8" | "usize" | "i32" | "x" | "suffix");
    } else if l.starts_with("0o") || l.starts_with("0b") {
        let set: &[char] = if l.starts_with("0o") { &['0', '1', '2', '3', '4', '5', '6', '7', '_'] } else { &['0', '1', '_'] };
        let r = l[2..].trim_start_matches(set);
        if !l[2..l.len() - r.len()].contains(|c: char| c.is_ascii_digit()) {
            return false;
        }
        return matches!(r, "" | "u8" | "usize" | "i32" | "x" | "suffix");
    } else {
        let digits = |s: &str| -> usize { s.len() - s.trim_start_matches(|c: char| c.is_ascii_digit() || c == '_').len() };
        let n = digits(l);
        if n == 0 || l.starts_with('_') {
            return false;
        }
        let mut r = &l[n..];
        if let Some(f) = r.strip_prefix('.') {
            if f.is_empty() {
                return true;
            }
            let n = digits(f);
            if n == 0 || f.starts_with('_') {
                return false;
            }
            r = &f[n..];
        }
        if let Some(e) = r.strip_prefix(['e', 'E']) {
            let e = e.strip_prefix(['+', '-']).unwrap_or(e);
            let n = digits(e);
            if n == 0 || e.starts_with('_') {
                return false;
            }
            r = &e[n..];
        }
        r
    };
    SUFFIX.contains(&rest)
}

/// Token model that printing and parsing must preserve: spacing is what the
/// following token implies, no invisible groups, no `//`.
pub fn model(s: &mut Src, depth: usize, max: usize) -> Vec<TT> {
    let n = s.skewed(max);
    let mut out: Vec<TT> = Vec::new();
    while out.len() < n {
        match s.below(10) {
            0..=2 => {
                let name = ident_name(s);
                let raw = s.chance(1, 5) && raw_ok(&name);
                out.push(plain(Tok::Ident(name, raw)));
            }
            3..=5 => {
                let p: Vec<char> = reflex::PUNCT.chars().filter(|c| *c != '\'').collect();
                let c = *s.pick(&p);
                let joint = s.chance(1, 2);
                out.push(plain(Tok::Punct(c, joint)));
            }
            6 | 7 => out.push(plain(Tok::Lit(valid_literal(s)))),
            8 => {
                let mut name = ident_name(s);
                let raw = s.chance(1, 5) && raw_ok(&name);
                if name.is_empty() {
                    name.push('a');
                }
                out.push(plain(Tok::Punct('\'', true)));
                out.push(plain(Tok::Ident(name, raw)));
            }
            _ => {
                let d = [Delim::Paren, Delim::Brace, Delim::Bracket][s.below(3)];
                let inner = if depth > 0 { model(s, depth - 1, 5) } else { Vec::new() };
                out.push(plain(Tok::Group(d, inner)));
            }
        }
    }
    // spacing must match what follows
    for i in 0..out.len() {
        let next = out.get(i + 1).map(|t| t.t.clone());
        if let Tok::Punct(c, j) = &mut out[i].t {
            if *c == '\'' {
                continue;
            }
            let ok = match next {
                Some(Tok::Punct(d, _)) => !(*c == '/' && (d == '/' || d == '*')),
                _ => false,
            };
            if !ok {
                *j = false;
            }
        }
    }
    // a joint run must not contain a comment opener: `/` joint to `/` or `*`
    out
}

/// Any constructible token model: arbitrary spacing, invisible groups and
/// negative literals included; only a quote keeps its identifier.
pub fn wild_model(s: &mut Src, depth: usize, max: usize) -> Vec<TT> {
    let mut v = model(s, 0, max);
    for t in &mut v {
        if let Tok::Punct(c, j) = &mut t.t {
            if *c != '\'' {
                *j = s.chance(1, 2);
            }
        }
    }
    let mut out = Vec::new();
    for t in v {
        match s.below(12) {
            0 if depth > 0 => {
                let d = [Delim::Paren, Delim::None, Delim::Brace, Delim::Bracket][s.below(4)];
                let inner = wild_model(s, depth - 1, 4);
                out.push(plain(Tok::Group(d, inner)));
            }
            1 => {
                let n = number(s);
                if literal_ok(&n) {
                    out.push(plain(Tok::Lit(format!("-{n}"))));
                }
            }
            2 => out.push(plain(Tok::Punct('\'', s.chance(1, 2)))),
            _ => {}
        }
        out.push(t);
    }
    out
}

/// A length around a power of two.
pub fn size(s: &mut Src, max_pow: usize) -> usize {
    match s.below(5) {
        0 => s.below(40),
        1 => s.below(1 << (max_pow - 1)),
        4 => dict_size(s, 1 << max_pow),
        _ => ((1usize << s.range(3, max_pow)) + s.below(5)).saturating_sub(2),
    }
}

/// The same kind of model with one or two long things in it.
pub fn lengthen(s: &mut Src, mut m: Vec<TT>) -> Vec<TT> {
    for _ in 0..s.range(1, 2) {
        let at = s.below(m.len() + 1);
        let n = size(s, 10);
        let sep = plain(Tok::Punct(';', false));
        match s.below(6) {
            0 | 1 => {
                let c = ["a", "é", "_", "日", "r"][s.below(5)];
                let raw = s.chance(1, 4);
                m.splice(at..at, [sep, plain(Tok::Ident(format!("x{}", c.repeat(n)), raw))]);
            }
            2 => {
                for _ in 0..4 {
                    let l = valid_literal(s);
                    let l = stretch(s, &l, 10);
                    if literal_ok(&l) && !l.starts_with('-') {
                        m.splice(at..at, [sep, plain(Tok::Lit(l))]);
                        break;
                    }
                }
            }
            3 => {
                let c = *s.pick(&['+', '=', '.', ':', '<', '#', '$']);
                let run = (0..n).map(|i| plain(Tok::Punct(c, i + 1 < n)));
                let run: Vec<TT> = run.chain([plain(Tok::Ident("y".to_owned(), false))]).collect();
                m.splice(at..at, run);
            }
            4 => {
                let d = [Delim::Paren, Delim::Brace, Delim::Bracket][s.below(3)];
                let inner = (0..n).map(|i| plain(if i % 2 == 0 { Tok::Ident("z".to_owned(), false) } else { Tok::Punct(',', false) })).collect();
                m.splice(at..at, [plain(Tok::Group(d, inner))]);
            }
            _ => {
                let mut t = plain(Tok::Group(Delim::Brace, Vec::new()));
                for i in 0..n.min(300) {
                    t = plain(Tok::Group([Delim::Paren, Delim::Brace, Delim::Bracket][i % 3], vec![t]));
                }
                m.splice(at..at, [t]);
            }
        }
    }
    // a quote keeps its identifier, joint punctuation its neighbour
    for i in 0..m.len() {
        let next = m.get(i + 1).map(|t| t.t.clone());
        if let Tok::Punct(c, j) = &mut m[i].t {
            let ok = match (&next, *c) {
                (Some(Tok::Ident(..)), '\'') => *j,
                (_, '\'') => {
                    *c = '+';
                    false
                }
                (Some(Tok::Punct(d, _)), c) => !(c == '/' && (*d == '/' || *d == '*')) && *j,
                _ => false,
            };
            *j = ok;
        }
    }
    m
}
