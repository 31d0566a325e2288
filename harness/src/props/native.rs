//! What both sides can say in text.

use crate::gen;
use crate::reflex::{Delim, Tok, TT};

/// Texts on which rustc's own lexer differs by design.
pub fn comparable(t: &str) -> bool {
    let c: Vec<char> = t.chars().collect();
    if !t.chars().all(gen::pm_char) || t.contains('\r') || t.trim_start().starts_with("#!") || t.contains("---") || t.contains("/*ERROR*/") {
        return false;
    }
    let word = |c: char| crate::reflex::id_continue(c);
    let mut i = 0;
    while i < c.len() {
        if c[i].is_ascii_digit() && (i == 0 || !word(c[i - 1])) {
            // a number: everything that could belong to it
            let mut k = i;
            while k < c.len() && (word(c[k]) || c[k] == '.' || ((c[k] == '+' || c[k] == '-') && matches!(c[k - 1], 'e' | 'E'))) {
                k += 1;
            }
            let n: String = c[i..k].iter().collect();
            // ranges, method calls and tuple fields are left out too
            if !gen::pm_number(&n) {
                return false;
            }
            i = k;
            continue;
        }
        if matches!(c[i], '"' | '\'' | '#') && i > 0 && word(c[i - 1]) {
            let mut k = i;
            while k > 0 && word(c[k - 1]) {
                k -= 1;
            }
            let w: String = c[k..i].iter().collect();
            if !matches!(w.as_str(), "r" | "b" | "c" | "br" | "cr") || (k > 0 && matches!(c[k - 1], '\'' | '"' | '#')) {
                return false;
            }
        }
        if c[i] == '\'' && i > 0 && crate::reflex::is_punct(c[i - 1]) {
            return false;
        }
        if c[i] == '_' && i > 0 && matches!(c[i - 1], '"' | '\'' | '#') && c.get(i + 1).is_none_or(|&n| !word(n)) {
            return false;
        }
        i += 1;
    }
    true
}

/// Invisible groups or spacings that text cannot carry.
pub fn has_none(m: &[TT]) -> bool {
    for (k, t) in m.iter().enumerate() {
        match &t.t {
            Tok::Group(Delim::None, _) => return true,
            Tok::Group(_, i) if has_none(i) => return true,
            Tok::Punct(c, true) => match m.get(k + 1).map(|t| &t.t) {
                Some(Tok::Punct(d, _)) => {
                    if *c == '\'' || *d == '\'' || (*c == '/' && matches!(d, '/' | '*')) {
                        return true;
                    }
                }
                Some(Tok::Ident(..)) if *c == '\'' => {}
                _ => return true,
            },
            _ => {}
        }
    }
    false
}
