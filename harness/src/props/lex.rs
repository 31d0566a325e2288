//! C01-C04, C15, C20: the lexer against the reference grammar.

use super::common::*;
use super::Env;
use crate::engine::*;
use crate::ensure;
use crate::gen;
use crate::model;
use crate::reflex::{self, Lexer, Tok, TT};
use proc_macro2::{Literal, TokenStream, TokenTree};
use std::str::FromStr;

pub fn reference(s: &str) -> Result<Vec<TT>, usize> {
    let c: Vec<char> = s.chars().collect();
    Lexer::new(&c).stream()
}

fn compare(s: &str) -> Result<Result<Vec<TT>, usize>, String> {
    let want = reference(s);
    let got = TokenStream::from_str(s);
    match (got, &want) {
        (Ok(ts), Ok(w)) => {
            if !model::same(ts.clone(), w) {
                return Err(format!(
                    "text {} was split into\n    {}\n  but Rust's lexical grammar gives\n    {}",
                    short(s),
                    model::show(&model::dump(ts)),
                    model::show(w)
                ));
            }
            ensure!(
                ts.is_empty() == w.is_empty(),
                "is_empty() is {} for {} which has {} tokens",
                ts.is_empty(),
                short(s),
                w.len()
            );
        }
        (Err(_), Err(_)) => {}
        (Ok(ts), Err(at)) => {
            return Err(format!(
                "text {} is malformed at character {at} but was accepted as\n    {}",
                short(s),
                model::show(&model::dump(ts))
            ));
        }
        (Err(e), Ok(w)) => {
            return Err(format!(
                "text {} is well formed,\n    {}\n  but was rejected ({e:?})",
                short(s),
                model::show(w)
            ));
        }
    }
    Ok(want)
}

fn has_lit(ts: &[TT]) -> bool {
    ts.iter().any(|t| match &t.t {
        Tok::Lit(_) => true,
        Tok::Group(_, i) => has_lit(i),
        _ => false,
    })
}

fn has_other(ts: &[TT]) -> bool {
    ts.iter().any(|t| !matches!(&t.t, Tok::Lit(_)))
}

/// Non-trivial for C02: accepted with a token that is not a literal, or
/// rejected at a place other than offset 0.
fn check_c02(s: &str, cx: &mut Cx) -> R {
    let w = compare(s)?;
    match w {
        Ok(t) => {
            cx.label("accepted");
            cx.nontrivial = has_other(&t);
            if t.len() >= 2 {
                cx.label("accepted, 2+ trees");
            }
        }
        Err(at) => {
            cx.label("rejected");
            cx.nontrivial = at > 0;
        }
    }
    Ok(())
}

/// Non-trivial for C03: contains a literal token, or is rejected and contains
/// a quote or digit.
fn check_c03(s: &str, cx: &mut Cx) -> R {
    let w = compare(s)?;
    match w {
        Ok(t) => {
            cx.label("accepted");
            cx.nontrivial = has_lit(&t);
            if cx.nontrivial {
                cx.label("accepted, has literal");
            }
        }
        Err(_) => {
            cx.label("rejected");
            cx.nontrivial = s.contains(|c: char| c == '"' || c == '\'' || c.is_ascii_digit());
        }
    }
    Ok(())
}

/// Non-trivial for C04: has a comment opener, a doc comment, white space
/// other than a plain space, or a byte order mark.
fn check_c04(s: &str, cx: &mut Cx) -> R {
    let w = compare(s)?;
    let comment = s.contains("//") || s.contains("/*");
    let blank = s.contains(|c: char| c != ' ' && (reflex::is_ws(c) || c == '\u{feff}'));
    cx.nontrivial = comment || blank;
    if comment {
        cx.label("has comment");
    }
    if blank {
        cx.label("has unusual white space");
    }
    match w {
        Ok(_) => cx.label("accepted"),
        Err(_) => cx.label("rejected"),
    }
    Ok(())
}

fn lexer_phases(env: Env, check: TextCheck, num: u32, quote: u32, comment: u32, punct: u32) -> Vec<Phase> {
    let t = env.thorough;
    let mut v = vec![
        text("tokens", env.n(150_000), gen::tokens, check),
        text("sloppy", env.n(250_000), gen::sloppy, check),
        text("mutated", env.n(300_000), gen::mutated, check),
        text("hot", env.n(600_000), gen::hot, check),
        text("fragments", env.n(500_000), gen::frags, check),
        text("stretched", env.n(80_000), gen::stretched, check),
        real_windows(env.n(40_000), check),
        enumerate(E_NUM, num, t, check),
        enumerate(E_QUOTE, quote, t, check),
        enumerate(E_COMMENT, comment, t, check),
        enumerate(E_PUNCT, punct, t, check),
        enumerate(E_BLANK, 0, t, check),
        enum_escapes(if t { 4 } else { 3 }, check),
        enum_unicode_escapes(if t { 8 } else { 6 }, check),
        enum_frags(if t { 3 } else { 2 }, check),
        words(check),
        boundaries(if t { 17 } else { 13 }, check),
        nesting(if t { 8192 } else { 2048 }, check),
        real_files(if t { 400 } else { 60 }, check),
        sweep(t, check),
        pairs(check),
    ];
    if !t {
        v.push(text("fragments-3", env.n(400_000), |s| (0..3).map(|_| gen::FRAGS[s.below(gen::FRAGS.len())]).collect(), check));
    }
    v
}

pub fn c02(env: Env) -> Vec<Phase> {
    lexer_phases(env, check_c02, 0, 0, 0, 1)
}

pub fn c03(env: Env) -> Vec<Phase> {
    let mut v = lexer_phases(env, check_c03, 1, 1, 0, 0);
    v.push(text(
        "literals",
        env.n(900_000),
        |s| {
            let a = gen::literal(s, true);
            match s.below(4) {
                0 => a,
                1 => format!("{a}{}", gen::hot_char(s)),
                2 => format!("{}{a}", gen::FRAGS[s.below(gen::FRAGS.len())]),
                _ => {
                    let b = gen::literal(s, false);
                    format!("{a}{b}")
                }
            }
        },
        check_c03,
    ));
    v.push(text(
        "stretched-literals",
        env.n(100_000),
        |s| {
            let l = gen::literal(s, true);
            gen::stretch(s, &l, 12)
        },
        check_c03,
    ));
    v.push(text("valid-literals", env.n(500_000), |s| gen::literal(s, false), check_c03));
    v
}

pub fn c04(env: Env) -> Vec<Phase> {
    let mut v = lexer_phases(env, check_c04, 0, 0, 1, 0);
    v.push(text(
        "comments",
        env.n(700_000),
        |s| {
            let mut o = String::new();
            if s.chance(1, 12) {
                o.push('\u{feff}');
            }
            for _ in 0..s.range(1, 6) {
                match s.below(4) {
                    0 => o.push_str(&gen::trivia(s)),
                    1 => o.push_str(&gen::doc_comment(s)),
                    2 => o.push_str(&gen::one(s, 1, false)),
                    _ => o.push_str(["/", "*", "/*", "*/", "//", "///", "/**", "/*!", "//!", "\n", "\r\n", "a", "!"][s.below(13)]),
                }
            }
            if s.chance(1, 4) {
                gen::mutate(s, &o)
            } else {
                o
            }
        },
        check_c04,
    ));
    v
}

// ------------------------------------------------------------------ C01

fn depth(s: &str) -> usize {
    let mut d = 0usize;
    let mut m = 0;
    for b in s.bytes() {
        match b {
            b'(' | b'[' | b'{' => {
                d += 1;
                m = m.max(d);
            }
            b')' | b']' | b'}' => d = d.saturating_sub(1),
            _ => {}
        }
    }
    m
}

pub fn poke_span(sp: proc_macro2::Span) {
    let _ = sp.source_text();
    let _ = format!("{sp:?}");
    let _ = sp.join(proc_macro2::Span::call_site());
    let _ = sp.resolved_at(sp);
    let _ = sp.located_at(sp);
    #[cfg(feature = "spans")]
    {
        let _ = sp.byte_range();
        let _ = sp.start();
        let _ = sp.end();
        let _ = sp.file();
        let _ = sp.local_file();
    }
}

fn poke(ts: TokenStream, budget: &mut usize) {
    let it = ts.into_iter();
    let _ = it.size_hint();
    for t in it {
        if *budget == 0 {
            return;
        }
        *budget -= 1;
        poke_span(t.span());
        match &t {
            TokenTree::Group(g) => {
                poke_span(g.span_open());
                poke_span(g.span_close());
                poke_span(g.delim_span().join());
                poke(g.stream(), budget);
            }
            TokenTree::Literal(l) => {
                let n = l.to_string().len();
                let _ = l.subspan(..);
                let _ = l.subspan(1..n);
                let _ = l.subspan(n..=n);
                let _ = l.subspan(2..1.min(n));
                let _ = l.subspan(0..usize::MAX);
                let _ = l.subspan(..=usize::MAX);
                let _ = l.subspan(usize::MAX..);
                #[cfg(feature = "exempt")]
                {
                    let _ = l.str_value();
                    let _ = l.byte_str_value();
                    let _ = l.cstr_value();
                }
            }
            TokenTree::Ident(i) => {
                let _ = i == "x";
            }
            TokenTree::Punct(_) => {}
        }
    }
}

/// Non-trivial for C01: not empty and not plain white space.
fn check_c01(s: &str, cx: &mut Cx) -> R {
    cx.nontrivial = !s.trim().is_empty();
    let shallow = depth(s) < 60;
    match TokenStream::from_str(s) {
        Ok(ts) => {
            cx.label("accepted");
            let mut b = if shallow { 400 } else { 0 };
            if shallow {
                if s.len() < 5000 {
                    let _ = ts.to_string();
                    let _ = format!("{ts:?}");
                }
                poke(ts.clone(), &mut b);
            }
            let c = ts.clone();
            drop(ts);
            let mut it = c.into_iter();
            let _ = it.next();
            drop(it);
        }
        Err(e) => {
            cx.label("rejected");
            let _ = e.to_string();
            let _ = format!("{e:?}");
            poke_span(e.span());
        }
    }
    match Literal::from_str(s) {
        Ok(l) => {
            let _ = l.to_string();
            let _ = format!("{l:?}");
            poke_span(l.span());
        }
        Err(e) => {
            let _ = e.to_string();
            poke_span(e.span());
        }
    }
    Ok(())
}

pub fn c01(env: Env) -> Vec<Phase> {
    let t = env.thorough;
    let check = check_c01;
    let deep = if t { 1_000_000 } else { 200_000 };
    vec![
        text("sloppy", env.n(250_000), gen::sloppy, check),
        text("mutated", env.n(250_000), gen::mutated, check),
        text("hot", env.n(500_000), gen::hot, check),
        text("fragments", env.n(300_000), gen::frags, check),
        text(
            "unicode",
            env.n(300_000),
            |s| {
                let n = s.skewed(16);
                (0..n).map(|_| if s.chance(1, 2) { gen::any_char(s) } else { gen::hot_char(s) }).collect()
            },
            check,
        ),
        text(
            "truncated-literals",
            env.n(300_000),
            |s| {
                let l = gen::literal(s, true);
                let c: Vec<char> = l.chars().collect();
                let k = s.below(c.len() + 1);
                let mut o: String = c[..k].iter().collect();
                for _ in 0..s.below(3) {
                    o.push(*s.pick(gen::UNI));
                }
                o
            },
            check,
        ),
        text("stretched", env.n(60_000), gen::stretched, check),
        text("stretched-far", env.n(3_000), |s| gen::stretched_to(s, 16), check),
        real_windows(env.n(20_000), check),
        enumerate(E_NUM, 0, t, check),
        enumerate(E_QUOTE, 0, t, check),
        enumerate(E_COMMENT, 0, t, check),
        enumerate(E_PUNCT, 0, t, check),
        enum_escapes(3, check),
        enum_unicode_escapes(5, check),
        enum_frags(2, check),
        words(check),
        boundaries(if t { 20 } else { 16 }, check),
        nesting(deep, check),
        real_files(if t { 400 } else { 60 }, check),
        sweep(t, check),
        pairs(check),
    ]
}

// ------------------------------------------------------------------ C15

#[cfg(feature = "spans")]
pub fn line_col(c: &[char], at: usize) -> (usize, usize) {
    let mut line = 1;
    let mut col = 0;
    for &ch in &c[..at] {
        if ch == '\n' {
            line += 1;
            col = 0;
        } else {
            col += 1;
        }
    }
    (line, col)
}

/// Non-trivial for C15: rejected, at an offset after the first token.
fn check_c15(s: &str, cx: &mut Cx) -> R {
    let want = reference(s);
    let Err(at) = want else {
        cx.label("accepted by the grammar");
        return Ok(());
    };
    cx.nontrivial = at > 0;
    cx.label("rejected");
    // other texts before and after, some of them failing too
    let before = if s.len() % 3 == 0 { "fn é() { \"日本\" }" } else { "" };
    if s.len() % 2 == 0 {
        let _ = TokenStream::from_str(before);
        let _ = TokenStream::from_str("é )");
    }
    let canonical = match TokenStream::from_str(")") {
        Err(e) => e.to_string(),
        Ok(_) => return Err("an unmatched closing delimiter was accepted".to_owned()),
    };
    let e = match TokenStream::from_str(s) {
        Err(e) => e,
        Ok(ts) => {
            return Err(format!(
                "text {} is malformed at character {at} but was accepted as {}",
                short(s),
                model::show(&model::dump(ts))
            ))
        }
    };
    let later = TokenStream::from_str("x y (z)");
    ensure!(later.is_ok(), "parsing after a rejected text fails");
    ensure!(
        e.to_string() == canonical && !canonical.is_empty(),
        "error for {} prints {:?}, other errors print {canonical:?}",
        short(s),
        e.to_string()
    );
    let dynamic: &dyn std::error::Error = &e;
    ensure!(dynamic.to_string() == canonical, "error prints differently as a dyn Error");
    #[cfg(all(feature = "spans", not(feature = "pm")))]
    {
        let c: Vec<char> = s.chars().collect();
        let byte: usize = c[..at].iter().map(|c| c.len_utf8()).sum();
        let (line, col) = line_col(&c, at);
        let sp = e.span();
        let (st, en, br) = (sp.start(), sp.end(), sp.byte_range());
        ensure!(
            st.line == line && st.column == col && en == st && br == (byte..byte),
            "text {} is malformed at character {at} (line {line} column {col}, byte {byte}) but the error is located at line {} column {} to line {} column {}, bytes {:?}",
            short(s),
            st.line,
            st.column,
            en.line,
            en.column,
            br
        );
        ensure!(sp.source_text().as_deref() == Some(""), "error span has source text {:?}", sp.source_text());
        // in that text's file and no other
        let other = later.unwrap().into_iter().next().unwrap().span();
        ensure!(
            sp.file() != other.file() && sp.file() != proc_macro2::Span::call_site().file(),
            "error in {} is reported in file {:?} (another text is {:?})",
            short(s),
            sp.file(),
            other.file()
        );
        ensure!(sp.join(other).is_none(), "error span joins with a span of another text");
    }
    Ok(())
}

pub fn c15(env: Env) -> Vec<Phase> {
    let t = env.thorough;
    let check = check_c15;
    vec![
        text("sloppy", env.n(300_000), gen::sloppy, check),
        text("mutated", env.n(400_000), gen::mutated, check),
        text("hot", env.n(500_000), gen::hot, check),
        text("fragments", env.n(400_000), gen::frags, check),
        text(
            "prefix-and-error",
            env.n(500_000),
            |s| {
                let mut o = gen::tokens(s);
                o.push_str(&gen::trivia(s));
                o.push_str(match s.below(12) {
                    0 => ")",
                    1 => "]",
                    2 => "}",
                    3 => "(",
                    4 => "[",
                    5 => "{",
                    6 => "\"",
                    7 => "/*",
                    8 => "'",
                    9 => "\u{1f600}",
                    10 => "r#\"",
                    _ => "/// \r",
                });
                o.push_str(&gen::trivia(s));
                o.push_str(&gen::seq(s, 2, 6, false));
                o
            },
            check,
        ),
        text("stretched", env.n(40_000), gen::stretched, check),
        real_windows(env.n(30_000), check),
        enumerate(E_NUM, 0, t, check),
        enumerate(E_QUOTE, 0, t, check),
        enumerate(E_COMMENT, 0, t, check),
        enumerate(E_PUNCT, 0, t, check),
        enum_escapes(if t { 4 } else { 3 }, check),
        enum_frags(if t { 3 } else { 2 }, check),
        words(check),
        sweep(t, check),
        pairs(check),
        boundaries(if t { 15 } else { 11 }, check),
        nesting(if t { 4096 } else { 512 }, check),
    ]
}

// ------------------------------------------------------------------ C20

/// Non-trivial for C20: accepted, or rejected although it has an accepted
/// literal somewhere as a token.
fn check_c20(s: &str, cx: &mut Cx) -> R {
    let want = reflex::whole_literal(s);
    match (Literal::from_str(s), want) {
        (Ok(l), true) => {
            cx.nontrivial = true;
            cx.label("accepted");
            ensure!(l.to_string() == s, "literal parsed from {} prints as {}", short(s), short(&l.to_string()));
            let c = l.clone();
            ensure!(c.to_string() == s, "clone prints differently");
            let ts = match TokenStream::from_str(s) {
                Ok(ts) => ts,
                Err(_) => return Err(format!("{} is a literal but not a token stream", short(s))),
            };
            let mut it = ts.into_iter();
            let mut text = String::new();
            if s.starts_with('-') {
                match it.next() {
                    Some(TokenTree::Punct(p)) if p.as_char() == '-' => text.push('-'),
                    other => return Err(format!("stream for {} starts with {other:?}", short(s))),
                }
            }
            match (it.next(), it.next()) {
                (Some(TokenTree::Literal(l2)), None) => text.push_str(&l2.to_string()),
                _ => return Err(format!("{} as a stream is not one literal", short(s))),
            }
            ensure!(text == s, "{} within a stream is {}", short(s), short(&text));
            #[cfg(all(feature = "spans", not(feature = "pm")))]
            {
                ensure!(
                    l.span().source_text().as_deref() == Some(s),
                    "literal {} has source text {:?}",
                    short(s),
                    l.span().source_text()
                );
                ensure!(l.span().byte_range() == (0..s.len()), "literal {} has bytes {:?}", short(s), l.span().byte_range());
            }
        }
        (Err(_), false) => {
            cx.label("rejected");
            cx.nontrivial = match reference(s) {
                Ok(t) => has_lit(&t),
                Err(_) => false,
            };
        }
        (Ok(l), false) => return Err(format!("{} is not one literal but was accepted as {l}", short(s))),
        (Err(e), true) => return Err(format!("{} is one literal but was rejected: {e}", short(s))),
    }
    Ok(())
}

pub fn c20(env: Env) -> Vec<Phase> {
    let t = env.thorough;
    let check = check_c20;
    vec![
        text("valid", env.n(400_000), |s| {
            let l = gen::literal(s, false);
            if s.chance(1, 4) { format!("-{l}") } else { l }
        }, check),
        text(
            "wrapped",
            env.n(700_000),
            |s| {
                let l = gen::literal(s, true);
                match s.below(8) {
                    0 => l,
                    1 => format!("{l}{}", gen::trivia(s)),
                    2 => format!("{}{l}", gen::trivia(s)),
                    3 => format!("-{}{l}", gen::FRAGS[s.below(gen::FRAGS.len())]),
                    4 => format!("{l}{}", gen::literal(s, true)),
                    5 => format!("{}{l}", gen::FRAGS[s.below(gen::FRAGS.len())]),
                    6 => format!("{l}{}", gen::FRAGS[s.below(gen::FRAGS.len())]),
                    _ => gen::mutate(s, &l),
                }
            },
            check,
        ),
        text("hot", env.n(600_000), gen::hot, check),
        text("fragments", env.n(400_000), gen::frags, check),
        text("sloppy", env.n(100_000), gen::sloppy, check),
        text(
            "stretched",
            env.n(100_000),
            |s| {
                let l = gen::literal(s, true);
                let l = if s.chance(1, 4) { format!("-{l}") } else { l };
                gen::stretch(s, &l, 11)
            },
            check,
        ),
        enumerate(E_NUM, 1, t, check),
        enumerate(E_QUOTE, 1, t, check),
        enumerate(E_COMMENT, 0, t, check),
        enumerate(E_PUNCT, 0, t, check),
        enumerate(E_BLANK, 0, t, check),
        enum_escapes(if t { 4 } else { 3 }, check),
        enum_unicode_escapes(if t { 8 } else { 6 }, check),
        enum_frags(if t { 3 } else { 2 }, check),
        words(check),
        boundaries(if t { 17 } else { 13 }, check),
        indexed(
            "enum-negative",
            gen::total_over(A_NUM.len() as u64, if t { 6 } else { 5 }),
            |i| Some(format!("-{}", gen::nth_over(A_NUM, i))),
            check,
        ),
        sweep(t, check),
        pairs(check),
        indexed("sweep-minus", 0x110000, |i| char::from_u32(i as u32).map(|c| format!("-{c}")), check),
    ]
}
