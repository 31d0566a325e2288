use crate::engine::{indexed, Phase, TextCheck};
use crate::gen;
use std::sync::{Arc, OnceLock};

/// Brings the library's global state back to a known point before each case.
pub fn reset() {
    #[cfg(all(feature = "spans", not(feature = "pm")))]
    proc_macro2::extra::invalidate_current_thread_spans();
}

pub fn short(s: &str) -> String {
    if s.chars().count() > 300 {
        let t: String = s.chars().take(300).collect();
        format!("{t:?}... ({} bytes)", s.len())
    } else {
        format!("{s:?}")
    }
}

pub fn real_sources() -> &'static [String] {
    static S: OnceLock<Vec<String>> = OnceLock::new();
    S.get_or_init(|| {
        let mut v = Vec::new();
        if let Ok(list) = std::env::var("VH_CORPUS") {
            if let Ok(l) = std::fs::read_to_string(list) {
                for p in l.lines() {
                    if let Ok(t) = std::fs::read_to_string(p) {
                        v.push(t);
                    }
                }
            }
        }
        if v.is_empty() {
            v.push("fn main() { println!(\"{}\", 1 + 2.5e3); } // end\n".to_owned());
        }
        v
    })
}

pub const A_NUM: &[&str] = &["0", "1", "9", "e", ".", "x", "_", "+", "b", "E", "-", "f"];
pub const A_QUOTE: &[&str] = &["\"", "'", "\\", "r", "b", "c", "#", "x", "0", "n", "a", "\n", "\r"];
pub const A_COMMENT: &[&str] = &["/", "*", "!", "\n", "a", "\r", " ", "#"];
pub const A_PUNCT: &[&str] = &["'", "/", "+", "a", "r", "#", "_", " ", "(", ")", "[", "]", "1"];
pub const A_ESC: &[&str] = &[
    "\\", "x", "u", "{", "}", "0", "1", "8", "f", "G", "_", "D", "n", "\n", "\r", " ", "é", "\0", "'", "\"",
];
pub const A_UESC: &[&str] = &["0", "1", "d", "F", "_", "}", "8", "g"];
pub const A_BLANK: &[&str] = &[" ", "\n", "\r", "\u{200e}", "\u{85}", "a", "\u{feff}", "/", "\u{a0}", "1", "\t", "\u{200f}"];

/// (name, alphabet, max length quick, max length thorough)
type Enum = (&'static str, &'static [&'static str], u32, u32);

pub const E_NUM: Enum = ("enum-num", A_NUM, 5, 7);
pub const E_QUOTE: Enum = ("enum-quote", A_QUOTE, 5, 6);
pub const E_COMMENT: Enum = ("enum-comment", A_COMMENT, 6, 8);
pub const E_PUNCT: Enum = ("enum-punct", A_PUNCT, 5, 6);
pub const E_BLANK: Enum = ("enum-blank", A_BLANK, 4, 6);

pub fn enumerate(e: Enum, extra: u32, thorough: bool, check: TextCheck) -> Phase {
    let (name, alpha, q, t) = e;
    let max = if thorough { t.max(q + extra) } else { q + extra };
    indexed(
        name,
        gen::total_over(alpha.len() as u64, max),
        move |i| Some(gen::nth_over(alpha, i)),
        check,
    )
}

/// bodies over the escape alphabet in every kind of quoted literal
pub fn enum_escapes(max: u32, check: TextCheck) -> Phase {
    const WRAP: &[(&str, &str)] = &[("\"", "\""), ("b\"", "\""), ("c\"", "\""), ("'", "'"), ("b'", "'"), ("r\"", "\""), ("\"", "")];
    let per = gen::total_over(A_ESC.len() as u64, max);
    indexed(
        "enum-escape",
        per * WRAP.len() as u64,
        move |i| {
            let (a, b) = WRAP[(i % WRAP.len() as u64) as usize];
            Some(format!("{a}{}{b}", gen::nth_over(A_ESC, i / WRAP.len() as u64)))
        },
        check,
    )
}

pub fn enum_unicode_escapes(max: u32, check: TextCheck) -> Phase {
    const WRAP: &[(&str, &str)] = &[("\"\\u{", "}\""), ("c\"\\u{", "}\""), ("'\\u{", "}'"), ("\"\\u{", "\"")];
    let per = gen::total_over(A_UESC.len() as u64, max);
    indexed(
        "enum-uescape",
        per * WRAP.len() as u64,
        move |i| {
            let (a, b) = WRAP[(i % WRAP.len() as u64) as usize];
            Some(format!("{a}{}{b}", gen::nth_over(A_UESC, i / WRAP.len() as u64)))
        },
        check,
    )
}

pub fn enum_frags(max: u32, check: TextCheck) -> Phase {
    indexed(
        "enum-fragments",
        gen::total_over(gen::FRAGS.len() as u64, max),
        |i| Some(gen::nth_over(gen::FRAGS, i)),
        check,
    )
}

/// every character in every lexical context
pub const CONTEXTS: &[(&str, &str)] = &[
    ("", ""),
    ("a", ""),
    ("a", "b"),
    ("1", ""),
    ("1.", ""),
    ("1.0", ""),
    ("0x1", ""),
    ("'", ""),
    ("'", "'"),
    ("'a", ""),
    ("+", ""),
    ("'\\", "'"),
    ("b'", "'"),
    ("\"", "\""),
    ("\"\\", "\""),
    ("b\"", "\""),
    ("c\"", "\""),
    ("c\"\\", "\""),
    ("b\"\\", "\""),
    ("r\"", "\""),
    ("br\"", "\""),
    ("cr\"", "\""),
    ("r#", ""),
    ("r#a", ""),
    ("\"\"", ""),
    ("//", "\na"),
    ("///", "\na"),
    ("/*", "*/"),
    ("/**", "*/"),
    ("/", ""),
    ("\"\\\n ", "\""),
    ("1e", "5"),
    ("\"\\x1", "\""),
    ("\"\\u{1", "}\""),
    ("'a'", ""),
    ("(", ")"),
    ("#", ""),
    ("1e+", "1"),
    ("b", "\"\""),
    ("'r#a", ""),
    ("//!", "\na"),
    ("/*!", " */ a"),
    ("/* ", "\n*/ a"),
    ("// ", ""),
    ("a\n", "\nb"),
    ("\"\n", "\n\" x"),
    ("\"\\\n", "x\" y"),
    ("b\"\\\n", "x\" y"),
    ("c\"\\\n", "x\" y"),
    ("r#\"\"", "\"# a"),
    ("br##\"\"#", "\"## a"),
    ("cr#\"", "\"# a"),
    ("'\\u{6", "}'"),
    ("0b1", ""),
    ("0o7", "1"),
    ("1_", ""),
    ("1.", "e5"),
    ("1.5f", "32"),
    ("{", "}"),
    ("[", "]"),
    ("'", "'a"),
    ("\u{feff}", "a"),
    ("-", "1"),
    ("b'a'", "c"),
    ("'static", " x"),
    ("r", "#a"),
    ("\"a\"", "b"),
    ("\"\\u{", "1}\""),
    ("'\\", "x'"),
    ("b'\\", "'"),
    ("0x", ""),
    ("0b", ""),
    ("0o", ""),
    ("0x", "1"),
    ("1_", "_1"),
    ("\"\\x", "a\""),
    ("b\"\\x", "a\""),
    ("b\"\\xa", "\""),
    ("c\"\\x", "a\""),
    ("c\"\\xa", "\""),
    ("'\\x", "a'"),
    ("'\\x1", "'"),
    ("b'\\x", "a'"),
    ("b'\\xa", "'"),
    ("c\"\\u{", "1}\""),
    ("c\"\\u{1", "}\""),
    ("'\\u{", "1}'"),
    ("\"\\u{10FFF", "}\""),
    ("\"\\u", "1}\""),
    ("\"\\u{1", "\""),
];

/// Every two ASCII characters in these contexts; on their own, every three.
const PAIRS: &[(&str, &str)] = &[
    ("\"\\x", "\""),
    ("b\"\\x", "\""),
    ("c\"\\x", "\""),
    ("'\\x", "'"),
    ("b'\\x", "'"),
    ("\"\\u{", "}\""),
    ("c\"\\u{", "}\""),
    ("'\\u{", "}'"),
    ("\"\\u{D", "F}\""),
    ("\"\\u{1", "FFFF}\""),
    ("\"", "\""),
    ("b\"", "\""),
    ("c\"", "\""),
    ("r#\"", "\"#"),
    ("br#\"", "\"#"),
    ("cr#\"", "\"#"),
    ("'", "'"),
    ("b'", "'"),
    ("\"\\\n", "\""),
    ("b\"\\\r\n", "\""),
    ("1", ""),
    ("1.", ""),
    ("1.5", ""),
    ("1e", ""),
    ("1.e", ""),
    ("1e+", ""),
    ("0x", ""),
    ("0b", ""),
    ("0o", ""),
    ("0", "1"),
    ("a", ""),
    ("r#", ""),
    ("'a", ""),
    ("'", ""),
    ("/", "\n"),
    ("//", "\na"),
    ("/*", "*/"),
    ("/**", "*/"),
    ("/*!", "*/ a"),
    ("+", "+"),
    ("(", ")"),
    ("\"a\"", ""),
    ("b'a'", ""),
    ("b", "\"a\""),
    ("\u{feff}", ""),
    ("r", "\"a\"#"),
    ("/* /*", "*/ */"),
];

pub fn pairs(check: TextCheck) -> Phase {
    let triples = 128 * 128 * 128;
    indexed(
        "ascii-pairs",
        PAIRS.len() as u64 * 128 * 128 + triples,
        move |i| {
            let c = |k: u64| char::from((k % 128) as u8);
            if i < triples {
                return Some([c(i), c(i / 128), c(i / 128 / 128)].into_iter().collect());
            }
            Some(pair(i - triples))
        },
        check,
    )
}

fn pair(i: u64) -> String {
    let c = |k: u64| char::from((k % 128) as u8);
    let (a, b) = PAIRS[(i / 128 / 128) as usize];
    format!("{a}{}{}{b}", c(i), c(i / 128))
}

/// Every `step`th of the pairs only.
pub fn some_pairs(step: u64, check: TextCheck) -> Phase {
    indexed("some-ascii-pairs", PAIRS.len() as u64 * 128 * 128 / step, move |i| Some(pair(i * step)), check)
}

pub fn sweep(thorough: bool, check: TextCheck) -> Phase {
    // quick: every character of the blocks in use (of the large uniform ones a
    // selection), of the rest the ends of each 256 and a fixed selection;
    // thorough: all of Unicode
    let chars: Vec<char> = if thorough {
        ('\0'..=char::MAX).collect()
    } else {
        ('\0'..=char::MAX)
            .filter(|&c| {
                let v = c as u32;
                v < 0x18000 || v % 256 < 2 || v % 256 > 253 || (v < 0x33480 && v % 7 == 3) || v % 97 == 5 || (0x1b000..0x1b400).contains(&v) || (0x1d000..0x20010).contains(&v) || (0xe0000..0xe0200).contains(&v)
            })
            .collect()
    };
    let chars = Arc::new(chars);
    let k = CONTEXTS.len() as u64;
    indexed(
        "sweep-chars",
        chars.len() as u64 * k,
        move |i| {
            let (a, b) = CONTEXTS[(i % k) as usize];
            Some(format!("{a}{}{b}", chars[(i / k) as usize]))
        },
        check,
    )
}

/// Every word, and every string in the code under test, in many places.
pub fn words(check: TextCheck) -> Phase {
    const PLACES: &[(&str, &str)] = &[
        ("", ""), ("r#", ""), ("'", ""), ("'r#", ""), ("", "#"), ("", "\"x\""), ("", "'x'"), ("", "#\"x\"#"), ("1", ""), ("\"s\"", ""), ("'c'", ""),
        ("1.0", ""), ("b'c'", ""), ("b\"s\"", ""), ("c\"s\"", ""), ("r#\"s\"#", ""), ("", "!"), ("#", ""), ("(", ")"), ("{", "}x"), ("/*", "*/"), ("//", "\nx"),
        ("///", ""), ("/**", "*/"), ("_", ""), ("", "_"), ("", "1"), ("é", ""), ("1_", ""), ("0x", ""), ("0b", ""), ("-", ""), ("+", "+"), ("::", "::"),
        ("\"", "\""), ("b\"", "\""), ("c\"", "\""), ("r\"", "\""), ("'", "'"), ("b'", "'"), ("\"\\", "\""), ("\"\\u{", "}\""), ("a ", " b"), ("a", "b"), ("$", ""),
        ("(a,", "(b))"), ("1.", ""), ("1e", ""), ("r##\"", "\"##"), (" ", "\n"), ("\u{feff}", ""), ("#!", "\nx"), ("0", "0"), ("'a", "'"), ("..", ".."),
    ];
    let k = PLACES.len() as u64;
    let n = gen::WORDS.len() + gen::dict().strs.len() + gen::dict().chars.len();
    indexed(
        "words",
        n as u64 * k,
        move |i| {
            let (a, b) = PLACES[(i % k) as usize];
            let w = (i / k) as usize;
            let d = gen::dict();
            let t = match gen::WORDS.get(w) {
                Some(t) => (*t).to_owned(),
                None => {
                    let w = w - gen::WORDS.len();
                    d.strs.get(w).cloned().unwrap_or_else(|| d.chars[w - d.strs.len()].to_string())
                }
            };
            Some(format!("{a}{t}{b}"))
        },
        check,
    )
}

/// sizes around powers of two, deep nesting, long runs
pub fn boundaries(max_pow: u32, check: TextCheck) -> Phase {
    let mut sizes: Vec<usize> = (0..40).collect();
    for p in 5..=max_pow {
        for d in [-2i64, -1, 0, 1, 2] {
            sizes.push(((1i64 << p) + d) as usize);
        }
    }
    for &n in &gen::dict().nums {
        for d in 0..3 {
            let n = (n as usize).saturating_add(d).saturating_sub(1);
            if n <= 1 << max_pow {
                sizes.push(n);
            }
        }
    }
    sizes.sort_unstable();
    sizes.dedup();
    type Mk = fn(usize) -> String;
    const KINDS: &[Mk] = &[
        |n| "a".repeat(n),
        |n| "é".repeat(n),
        |n| format!("\"{}\"", "a".repeat(n)),
        |n| format!("\"{}\" x", "日".repeat(n)),
        |n| format!("b\"{}\"", "\\x41".repeat(n)),
        |n| format!("r{0}\"a\"{0}", "#".repeat(n.min(400))),
        |n| format!("cr{0}\"a\"{1}\"{0} x", "#".repeat(n.min(300)), "#".repeat(n.min(300).saturating_sub(1))),
        |n| "1".repeat(n),
        |n| format!("1{}", "_".repeat(n)),
        |n| format!("1.{}e{}", "0".repeat(n), "1".repeat(n)),
        |n| " ".repeat(n) + "x",
        |n| "\n".repeat(n) + "x",
        |n| format!("//{}\nx", "a".repeat(n)),
        |n| format!("///{}\nx", "é".repeat(n)),
        |n| format!("{}{}x", "/*".repeat(n), "*/".repeat(n)),
        |n| format!("{}{}", "/*".repeat(n), "*/".repeat(n.saturating_sub(1))),
        |n| format!("/*{}*/ x", "*".repeat(n)),
        |n| format!("/{} x", "/".repeat(n)),
        |n| "+".repeat(n),
        |n| "a ".repeat(n),
        |n| "a+".repeat(n),
        |n| "'a ".repeat(n),
        |n| format!("\"\\\n{}x\"", " ".repeat(n)),
        |n| format!("\"{}\"", "\\\n \t\r\n".repeat(n) + "x"),
        |n| format!("{}日\nx", "x\n".repeat(n)),
        |n| format!("\"{}", "\\n".repeat(n)),
        |n| format!("/*! {} */ y", "line\r\n".repeat(n)),
        |n| "\u{200e}".repeat(n) + "z",
        |n| format!("r#{}", "a".repeat(n)),
        |n| "#![a]".repeat(n),
        |n| "\r\n".repeat(n) + "\"\r\n\" q",
        |n| format!("0x{}", "f".repeat(n)),
        |n| format!("\"\\u{{{}1}}\"", "0".repeat(n.min(200))),
        |n| format!("\"\\u{{1{}}}\"", "_".repeat(n)),
        |n| "/**/".repeat(n) + "x",
        |n| "(/*ERROR*/)".repeat(n),
        |n| format!("1{}", "a".repeat(n)),
        |n| "\"\"".repeat(n),
    ];
    let k = KINDS.len() as u64;
    indexed(
        "boundary-sizes",
        sizes.len() as u64 * k,
        move |i| Some(KINDS[(i % k) as usize](sizes[(i / k) as usize])),
        check,
    )
}

/// nesting that fits a normal thread's stack when visited recursively
pub fn nesting(max: usize, check: TextCheck) -> Phase {
    type Mk = fn(usize) -> String;
    const KINDS: &[Mk] = &[
        |n| "(".repeat(n) + &")".repeat(n),
        |n| "[{".repeat(n) + &"}]".repeat(n),
        |n| "{ a ".repeat(n) + &" b }".repeat(n),
        |n| "(".repeat(n) + &")".repeat(n.saturating_sub(1)),
        |n| "(".repeat(n) + &")".repeat(n + 1),
        |n| "[x".repeat(n) + ")" + &"]".repeat(n),
        |n| "(a,".repeat(n) + "\"\\q\"" + &")".repeat(n),
        |n| "([]{})".repeat(n),
    ];
    let mut sizes: Vec<usize> = (0..24).collect();
    let mut v = 32;
    while v <= max {
        sizes.extend([v - 1, v, v + 1]);
        v *= 2;
    }
    sizes.extend(gen::dict().nums.iter().flat_map(|&n| [(n as usize).saturating_sub(1), n as usize, (n as usize).saturating_add(1)]).filter(|&n| n <= max));
    sizes.sort_unstable();
    sizes.dedup();
    let k = KINDS.len() as u64;
    indexed(
        "nesting",
        sizes.len() as u64 * k,
        move |i| Some(KINDS[(i % k) as usize](sizes[(i / k) as usize])),
        check,
    )
}

/// windows and whole files of real Rust source
pub fn real_windows(cases: u64, check: TextCheck) -> Phase {
    crate::engine::text(
        "real-windows",
        cases,
        |s| {
            let srcs = real_sources();
            let t = &srcs[s.below(srcs.len())];
            let lines: Vec<usize> = std::iter::once(0).chain(t.match_indices('\n').map(|(i, _)| i + 1)).collect();
            let a = lines[s.below(lines.len())];
            let n = s.range(1, 12);
            let mut end = a;
            for _ in 0..n {
                end = t[end..].find('\n').map_or(t.len(), |p| end + p + 1);
            }
            let w = &t[a..end];
            if s.chance(1, 3) {
                gen::mutate(s, w)
            } else {
                w.to_owned()
            }
        },
        check,
    )
}

pub fn real_files(max: u64, check: TextCheck) -> Phase {
    let n = (real_sources().len() as u64).min(max);
    indexed("real-files", n, |i| real_sources().get(i as usize).cloned(), check)
}

/// Does the text mean the same to whichever lexer reads it here?
pub fn readable(m: &[crate::reflex::TT], text: &str) -> bool {
    #[cfg(feature = "pm")]
    return super::pm::pm_readable(m, text);
    #[cfg(not(feature = "pm"))]
    {
        let _ = (m, text);
        true
    }
}
