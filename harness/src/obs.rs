//! What a program outside a procedural macro can observe, written down as
//! text, without anything that span locations or extra methods add.

use crate::engine::{catch, Src};
use crate::gen;
use crate::model;
use proc_macro2::{Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};
use std::collections::hash_map::DefaultHasher;
use std::ffi::{c_void, CString};
use std::fmt::{Debug, Write as _};
use std::hash::{Hash, Hasher};
use std::str::FromStr;

/// the same tokens, every span being the call site
pub fn at_call_site(ts: TokenStream) -> TokenStream {
    ts.into_iter()
        .map(|t| {
            let mut t = match t {
                TokenTree::Group(g) => TokenTree::Group(Group::new(g.delimiter(), at_call_site(g.stream()))),
                t => t,
            };
            t.set_span(Span::call_site());
            t
        })
        .collect()
}

fn tokens(ts: TokenStream, o: &mut String) {
    let mut it = ts.into_iter();
    let _ = write!(o, "{:?}[", it.size_hint());
    while let Some(t) = it.next() {
        match &t {
            TokenTree::Group(g) => {
                let _ = write!(o, "{:?}", g.delimiter());
                tokens(g.stream(), o);
                let _ = write!(o, "<{g}>");
            }
            TokenTree::Ident(i) => {
                let mut h = DefaultHasher::new();
                i.hash(&mut h);
                let _ = write!(o, "I{i}#{:x};", h.finish());
            }
            TokenTree::Punct(p) => {
                let _ = write!(o, "P{p}{}{:?};", p.as_char(), p.spacing());
            }
            TokenTree::Literal(l) => {
                let _ = write!(o, "L{l};");
            }
        }
        let _ = write!(o, "{t}");
    }
    let _ = write!(o, "]{:?}", it.size_hint());
}

fn stream(ts: &TokenStream, o: &mut String) {
    let _ = write!(o, "{ts}|{ts:#}|{}|", ts.is_empty());
    tokens(ts.clone(), o);
    let plain = at_call_site(ts.clone());
    let _ = write!(o, "|{plain:?}");
}

fn outcome<T>(r: Result<T, String>, o: &mut String, f: impl FnOnce(T, &mut String)) {
    match r {
        Ok(v) => f(v, o),
        Err(_) => o.push_str("panic"),
    }
    o.push('\n');
}

fn display<T: ToString>(v: T, o: &mut String) {
    o.push_str(&v.to_string());
}

fn show<T: Debug>(v: T, o: &mut String) {
    let _ = write!(o, "{v:?}");
}

pub fn of_text(t: &str) -> String {
    crate::props::common::reset();
    let mut o = String::new();
    outcome(catch(|| TokenStream::from_str(t)), &mut o, |r, o| match r {
        Ok(ts) => stream(&ts, o),
        Err(e) => display(e, o),
    });
    outcome(catch(|| Literal::from_str(t)), &mut o, |r, o| match r {
        Ok(l) => {
            let _ = write!(o, "{l}");
            let ts: TokenStream = [TokenTree::from(l)].into_iter().collect();
            stream(&ts, o);
        }
        Err(e) => display(e, o),
    });
    for raw in [false, true] {
        outcome(
            catch(|| if raw { Ident::new_raw(t, Span::call_site()) } else { Ident::new(t, Span::mixed_site()) }),
            &mut o,
            |i, o| {
                let _ = write!(o, "{i} {} {}", i == *t, i == t.to_owned());
                let j = Ident::new("r", Span::call_site());
                let k = Ident::new_raw("a", Span::call_site());
                show((i.cmp(&j), j.cmp(&i), i == j, i.cmp(&k), i == k, i == "a", i == "r#a"), o);
            },
        );
    }
    if t.len() < 400 {
        display(Literal::string(t), &mut o);
        o.push('\n');
        display(Literal::byte_string(t.as_bytes()), &mut o);
        o.push('\n');
        if let Ok(c) = CString::new(t) {
            display(Literal::c_string(&c), &mut o);
        }
        for c in t.chars().take(8) {
            display(Literal::character(c), &mut o);
            display(Literal::byte_character(c as u8), &mut o);
            outcome(catch(|| Punct::new(c, Spacing::Joint)), &mut o, display);
        }
    }
    o
}

pub fn of_tape(tape: &[u64]) -> String {
    crate::props::common::reset();
    let o = history(tape, true, &mut |toggle| {
        if toggle {
            proc_macro2::fallback::force();
        } else {
            proc_macro2::fallback::unforce();
        }
    });
    proc_macro2::fallback::unforce();
    o
}

/// A history of calls decoded from `tape`. `print`: observe the printed and
/// debug forms as well as the tokens. `force` is called where the history
/// says to force the fallback (true) or not to.
pub fn history(tape: &[u64], print: bool, force: &mut dyn FnMut(bool)) -> String {
    let mut s = Src::replay(tape.to_vec());
    let s = &mut s;
    let mut o = String::new();
    let mut streams: Vec<TokenStream> = vec![TokenStream::new()];
    let mut iters: Vec<proc_macro2::token_stream::IntoIter> = Vec::new();
    let steps = s.range(2, 24);
    for _ in 0..steps {
        let k = s.below(streams.len());
        match s.below(14) {
            0 => {
                let m = gen::wild_model(s, 3, 8);
                let spans = [Span::call_site(), Span::mixed_site()];
                let ts = model::build_stream(&m, s, &spans);
                streams.push(ts);
            }
            1 => {
                #[cfg(not(feature = "pm"))]
                let t = gen::tokens(s);
                #[cfg(feature = "pm")]
                let t = crate::props::pm::comparable_text(s);
                match TokenStream::from_str(&t) {
                    Ok(ts) => streams.push(ts),
                    Err(_) => o.push_str("error"),
                }
            }
            2 => {
                let v = streams[k].clone();
                streams.push(v);
            }
            3 => {
                let v = streams[s.below(streams.len())].clone();
                streams[k].extend([v]);
            }
            4 => {
                let v: Vec<TokenTree> = streams[s.below(streams.len())].clone().into_iter().take(5).collect();
                streams[k].extend(v);
            }
            5 => {
                let d = [Delimiter::Parenthesis, Delimiter::Brace, Delimiter::Bracket, Delimiter::None][s.below(4)];
                let g = Group::new(d, streams[k].clone());
                if print {
                    let _ = write!(o, "{g}");
                }
                streams.push(TokenStream::from(TokenTree::from(g)));
            }
            6 => iters.push(streams[k].clone().into_iter()),
            7 => {
                if !iters.is_empty() {
                    let n = s.below(iters.len());
                    for _ in 0..s.below(5) {
                        let t = iters[n].next();
                        show((t.is_some(), if print { iters[n].size_hint() } else { (0, None) }), &mut o);
                        if let Some(mut t) = t {
                            t.set_span(Span::call_site());
                            o.push_str(&model::show_all(&[model::dump_tree(&t)]));
                            if s.chance(1, 2) {
                                streams[k].extend([t]);
                            }
                        }
                    }
                    if s.chance(1, 3) {
                        let c = iters[n].clone();
                        streams.push(c.collect());
                    }
                }
            }
            8 => {
                let i = crate::gen::ident_name(s);
                let i = Ident::new(&i, Span::call_site());
                streams[k].extend([i]);
            }
            9 => {
                let v = s.u64();
                let l = number(s.below(38), v);
                let _ = write!(o, "{l}");
                streams[k].extend([TokenTree::from(l)]);
            }
            10 => {
                let f = s.chance(1, 2);
                force(f);
            }
            11 => {
                if streams.len() > 1 {
                    streams.remove(k);
                }
            }
            12 => {
                let all: Vec<TokenStream> = streams.iter().take(3).cloned().collect();
                streams.push(all.into_iter().collect());
            }
            _ => {
                let v = std::mem::take(&mut streams[k]);
                let (_, n) = (v.is_empty(), v.into_iter().count());
                let _ = write!(o, "{n}");
            }
        }
        if streams.len() > 6 {
            streams.remove(0);
        }
        let mut total = 0;
        for t in &mut streams {
            total += t.clone().into_iter().count();
            if total > 2_000 {
                *t = TokenStream::new();
            }
        }
    }
    for t in &streams {
        if print {
            stream(t, &mut o);
        } else {
            o.push_str(&model::show_all(&model::dump(t.clone())));
            let _ = write!(o, "{}", t.is_empty());
        }
        o.push('\n');
    }
    o
}

fn number(k: usize, v: u64) -> Literal {
    let w = (u128::from(v) << 64) | u128::from(v.rotate_left(17));
    match k {
        0 => Literal::u8_suffixed(v as u8),
        1 => Literal::u16_suffixed(v as u16),
        2 => Literal::u32_suffixed(v as u32),
        3 => Literal::u64_suffixed(v),
        4 => Literal::u128_suffixed(w),
        5 => Literal::usize_suffixed(v as usize),
        6 => Literal::i8_suffixed(v as i8),
        7 => Literal::i16_suffixed(v as i16),
        8 => Literal::i32_suffixed(v as i32),
        9 => Literal::i64_suffixed(v as i64),
        10 => Literal::i128_suffixed(w as i128),
        11 => Literal::isize_suffixed(v as isize),
        12 => Literal::u8_unsuffixed(v as u8),
        13 => Literal::u16_unsuffixed(v as u16),
        14 => Literal::u32_unsuffixed(v as u32),
        15 => Literal::u64_unsuffixed(v),
        16 => Literal::u128_unsuffixed(w),
        17 => Literal::usize_unsuffixed(v as usize),
        18 => Literal::i8_unsuffixed(v as i8),
        19 => Literal::i16_unsuffixed(v as i16),
        20 => Literal::i32_unsuffixed(v as i32),
        21 => Literal::i64_unsuffixed(v as i64),
        22 => Literal::i128_unsuffixed(w as i128),
        23 => Literal::isize_unsuffixed(v as isize),
        24..=27 => {
            let f = f32::from_bits(v as u32);
            let f = if f.is_finite() { f } else { 1.5 };
            if k % 2 == 0 {
                Literal::f32_suffixed(f)
            } else {
                Literal::f32_unsuffixed(f)
            }
        }
        28..=31 => {
            let f = f64::from_bits(v);
            let f = if f.is_finite() { f } else { -0.0 };
            if k % 2 == 0 {
                Literal::f64_suffixed(f)
            } else {
                Literal::f64_unsuffixed(f)
            }
        }
        32 => Literal::f64_unsuffixed((v % 1000) as f64),
        33 => Literal::f32_suffixed(-((v % 100) as f32)),
        _ => Literal::i32_unsuffixed((v % 7) as i32 - 3),
    }
}

/// What the standard library, not the crate, decides about a character.
pub fn std_view(c: char) -> u64 {
    let e: String = c.escape_debug().collect();
    crate::engine::hash_bytes(e.as_bytes()) ^ u64::from(c.is_whitespace())
}

pub type Sink = extern "C" fn(*mut c_void, *const u8, usize);
pub type Observe = unsafe extern "C" fn(u32, *const u8, usize, Sink, *mut c_void);
pub type StdView = unsafe extern "C" fn(u32) -> u64;

/// # Safety
/// `p` points to `n` bytes of UTF-8 (kind 0) or `n` words (kind 1).
#[no_mangle]
pub unsafe extern "C" fn vh_observe(kind: u32, p: *const u8, n: usize, sink: Sink, data: *mut c_void) {
    static HOOK: std::sync::Once = std::sync::Once::new();
    HOOK.call_once(crate::engine::install_hook);
    let r = catch(|| {
        if kind == 0 {
            let b = unsafe { std::slice::from_raw_parts(p, n) };
            of_text(std::str::from_utf8(b).unwrap())
        } else {
            let b = unsafe { std::slice::from_raw_parts(p.cast::<u64>(), n) };
            of_tape(b)
        }
    });
    let s = r.unwrap_or_else(|m| format!("panic: {m}"));
    sink(data, s.as_ptr(), s.len());
}

#[no_mangle]
pub extern "C" fn vh_std_view(c: u32) -> u64 {
    char::from_u32(c).map_or(0, std_view)
}
