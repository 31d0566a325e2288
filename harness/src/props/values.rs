//! C07 literals from values, C08 values from literals.

use super::common::*;
use super::Env;
use crate::engine::*;
use crate::ensure;
use crate::gen;
use crate::reflex::{self, Tok};
use crate::refval::{self, Val};
use proc_macro2::{Literal, TokenStream, TokenTree};
use std::ffi::CString;
use std::fmt::Write as _;
use std::str::FromStr;

// ------------------------------------------------------------- a value

#[derive(Clone, Debug)]
pub enum Value {
    /// type name, value as text
    Int(&'static str, bool, bool, u128),
    F64(bool, u64),
    F32(bool, u32),
    Str(String),
    Char(char),
    Byte(u8),
    Bytes(Vec<u8>),
    CStr(Vec<u8>),
}

pub const INT_TYPES: &[&str] = &[
    "u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize",
];

fn bits(ty: &str) -> u32 {
    match &ty[1..] {
        "8" => 8,
        "16" => 16,
        "32" => 32,
        "64" | "size" => 64,
        _ => 128,
    }
}

/// magnitude limited to what the type holds
fn clamp(ty: &str, neg: bool, mag: u128) -> (bool, u128) {
    let b = bits(ty);
    let (neg, max) = if ty.starts_with('i') {
        (neg, if neg { 1u128 << (b - 1) } else { (1u128 << (b - 1)) - 1 })
    } else {
        (false, if b == 128 { u128::MAX } else { (1u128 << b) - 1 })
    };
    (neg && mag != 0, if mag > max { mag & max } else { mag })
}

pub fn make(v: &Value) -> Literal {
    macro_rules! int {
        ($ty:expr, $suf:expr, $neg:expr, $mag:expr; $($t:ident $s:ident $u:ident,)*) => {
            match $ty {
                $(stringify!($t) => {
                    let n = if $neg { ($mag as $t).wrapping_neg_any() } else { $mag as $t };
                    if $suf { Literal::$s(n) } else { Literal::$u(n) }
                })*
                _ => unreachable!(),
            }
        };
    }
    match v {
        Value::Int(ty, suf, neg, mag) => int! { *ty, *suf, *neg, *mag;
            u8 u8_suffixed u8_unsuffixed,
            u16 u16_suffixed u16_unsuffixed,
            u32 u32_suffixed u32_unsuffixed,
            u64 u64_suffixed u64_unsuffixed,
            u128 u128_suffixed u128_unsuffixed,
            usize usize_suffixed usize_unsuffixed,
            i8 i8_suffixed i8_unsuffixed,
            i16 i16_suffixed i16_unsuffixed,
            i32 i32_suffixed i32_unsuffixed,
            i64 i64_suffixed i64_unsuffixed,
            i128 i128_suffixed i128_unsuffixed,
            isize isize_suffixed isize_unsuffixed,
        },
        Value::F64(true, b) => Literal::f64_suffixed(f64::from_bits(*b)),
        Value::F64(false, b) => Literal::f64_unsuffixed(f64::from_bits(*b)),
        Value::F32(true, b) => Literal::f32_suffixed(f32::from_bits(*b)),
        Value::F32(false, b) => Literal::f32_unsuffixed(f32::from_bits(*b)),
        Value::Str(s) => Literal::string(s),
        Value::Char(c) => Literal::character(*c),
        Value::Byte(b) => Literal::byte_character(*b),
        Value::Bytes(b) => Literal::byte_string(b),
        Value::CStr(b) => Literal::c_string(&CString::new(b.clone()).expect("no NUL")),
    }
}

trait NegAny {
    fn wrapping_neg_any(self) -> Self;
}
macro_rules! neg_any { ($($t:ty)*) => { $(impl NegAny for $t { fn wrapping_neg_any(self) -> Self { self.wrapping_neg() } })* } }
neg_any! { u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize }

impl Value {
    pub fn finite(&self) -> bool {
        match self {
            Value::F64(_, b) => f64::from_bits(*b).is_finite(),
            Value::F32(_, b) => f32::from_bits(*b).is_finite(),
            _ => true,
        }
    }
    pub fn show(&self) -> String {
        let hex = |b: &[u8]| {
            let mut s = String::new();
            for x in b {
                let _ = write!(s, "{x:02x}");
            }
            s
        };
        match self {
            Value::Int(ty, suf, neg, mag) => {
                format!("int {ty} {} {}{mag}", if *suf { "suffixed" } else { "unsuffixed" }, if *neg { "-" } else { "" })
            }
            Value::F64(s, b) => format!("f64 {} {b:x}", if *s { "suffixed" } else { "unsuffixed" }),
            Value::F32(s, b) => format!("f32 {} {b:x}", if *s { "suffixed" } else { "unsuffixed" }),
            Value::Str(s) => format!("str {s}"),
            Value::Char(c) => format!("char {c}"),
            Value::Byte(b) => format!("byte {b:02x}"),
            Value::Bytes(b) => format!("bytes {}", hex(b)),
            Value::CStr(b) => format!("cstr {}", hex(b)),
        }
    }
    pub fn read(t: &str) -> Option<Value> {
        let (kind, rest) = t.split_once(' ')?;
        let unhex = |h: &str| -> Option<Vec<u8>> {
            if h.len() % 2 != 0 || !h.is_ascii() {
                return None;
            }
            (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).ok()).collect()
        };
        let suf = |x: &str| match x {
            "suffixed" => Some(true),
            "unsuffixed" => Some(false),
            _ => None,
        };
        Some(match kind {
            "int" => {
                let mut it = rest.split(' ');
                let ty = it.next()?;
                let ty = INT_TYPES.iter().find(|x| **x == ty)?;
                let s = suf(it.next()?)?;
                let v = it.next()?;
                let (neg, d) = match v.strip_prefix('-') {
                    Some(d) => (true, d),
                    None => (false, v),
                };
                let mag: u128 = d.parse().ok()?;
                let (n2, m2) = clamp(ty, neg, mag);
                if (n2, m2) != (neg, mag) {
                    return None;
                }
                Value::Int(ty, s, neg, mag)
            }
            "f64" => {
                let (a, b) = rest.split_once(' ')?;
                Value::F64(suf(a)?, u64::from_str_radix(b, 16).ok()?)
            }
            "f32" => {
                let (a, b) = rest.split_once(' ')?;
                Value::F32(suf(a)?, u32::from_str_radix(b, 16).ok()?)
            }
            "str" => Value::Str(rest.to_owned()),
            "char" => {
                let mut it = rest.chars();
                let c = it.next()?;
                if it.next().is_some() {
                    return None;
                }
                Value::Char(c)
            }
            "byte" => Value::Byte(*unhex(rest)?.first()?),
            "bytes" => Value::Bytes(unhex(rest)?),
            "cstr" => {
                let b = unhex(rest)?;
                if b.contains(&0) {
                    return None;
                }
                Value::CStr(b)
            }
            _ => return None,
        })
    }
}

fn rand_u128(s: &mut Src) -> u128 {
    let hi = u128::from(s.u64()) << 64 | u128::from(s.u64());
    let sh = s.below(129) as u32;
    let base = hi.checked_shr(sh).unwrap_or(0);
    match s.below(6) {
        5 => u128::from(gen::dict_num(s)),
        0 => (s.below(300)) as u128,
        1 => base,
        2 => 1u128.checked_shl(s.below(129) as u32).unwrap_or(0).wrapping_add(s.below(5) as u128).wrapping_sub(2),
        3 => 10u128.checked_pow(s.below(40) as u32).unwrap_or(0).wrapping_add(s.below(3) as u128).wrapping_sub(1),
        _ => u128::MAX - base,
    }
}

pub fn rand_f64(s: &mut Src) -> u64 {
    match s.below(8) {
        0 => (s.below(2000) as f64 / 8.0).to_bits(),
        1 => s.u64(),
        2 => (s.u64() as f64).to_bits(),
        3 => {
            let e = s.below(2048) as u64;
            (e << 52) | (s.below(4) as u64) | ((s.below(2) as u64) << 63)
        }
        4 => {
            let d = format!("{}{}.{}e{}", ["", "-"][s.below(2)], s.below(10), s.below(1000), s.below(640) as i64 - 320);
            d.parse::<f64>().unwrap().to_bits()
        }
        5 => s.u64() >> s.below(64),
        6 => (f64::MAX.to_bits() - s.below(4) as u64) | ((s.below(2) as u64) << 63),
        _ => {
            const P: &[f64] = &[
                0.0,
                -0.0,
                1.0,
                0.1,
                1e16,
                1e15,
                123456789012345680.0,
                5e-324,
                2.2250738585072014e-308,
                1e21,
                1e300,
                9007199254740993.0,
                f64::EPSILON,
                1e-7,
                1e-5,
                f64::NAN,
                f64::INFINITY,
                f64::NEG_INFINITY,
                1e100,
                0.3,
            ];
            P[s.below(P.len())].to_bits()
        }
    }
}

pub fn rand_f32(s: &mut Src) -> u32 {
    match s.below(6) {
        0 => (s.below(2000) as f32 / 8.0).to_bits(),
        1 => s.u64() as u32,
        2 => ((s.u64() >> s.below(64)) as f32).to_bits(),
        3 => ((s.below(256) as u32) << 23) | (s.below(4) as u32) | ((s.below(2) as u32) << 31),
        4 => {
            let d = format!("{}.{}e{}", s.below(10), s.below(1000), s.below(80) as i64 - 40);
            d.parse::<f32>().unwrap().to_bits()
        }
        _ => {
            const P: &[f32] = &[0.0, -0.0, 0.1, 1e16, 16777217.0, 1e-45, f32::MAX, f32::MIN, f32::NAN, f32::INFINITY, f32::EPSILON];
            P[s.below(P.len())].to_bits()
        }
    }
}

pub fn rand_string(s: &mut Src) -> String {
    let n = s.skewed(16);
    let mut o = String::new();
    for _ in 0..n {
        match s.below(24) {
            23 => o.push_str(gen::dict_str(s)),
            0..=3 => o.push(*s.pick(&['\0', '0', '7', '8', '\n', '\r', '\t', '\'', '"', '\\', '{', '}', ' ', 'u', 'x', '#'])),
            4..=7 => o.push_str(*s.pick(&["\0007", "\\\n", "\r\n", "\\u{", "*/", "\u{301}", "\u{200d}", "é", "\u{feff}", "\u{ad}", "\u{fffd}", "\u{e000}", "👨‍👩"])),
            8..=11 => o.push((b'a' + s.below(26) as u8) as char),
            _ => o.push(gen::any_char(s)),
        }
    }
    o
}

pub fn rand_bytes(s: &mut Src, nonzero: bool) -> Vec<u8> {
    let mut o = Vec::new();
    for _ in 0..s.skewed(14) {
        match s.below(6) {
            0 => o.push(s.below(256) as u8),
            1 => o.push(*s.pick(b"\0\x01\x07089\n\r\t'\"\\ \x7e\x7f\x80\xff{}")),
            2 => o.push(b'a' + s.below(26) as u8),
            3 => {
                let c = gen::any_char(s);
                o.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes());
            }
            4 => {
                // truncated or corrupted sequence
                let c = gen::any_char(s);
                let mut b = [0; 4];
                let e = c.encode_utf8(&mut b).as_bytes();
                o.extend_from_slice(&e[..s.range(1, e.len())]);
            }
            _ => o.extend_from_slice(*s.pick(&[
                &b"\xed\xa0\x80"[..],
                b"\xf4\x90\x80\x80",
                b"\xc0\x80",
                b"\xe2\x82",
                b"\xf0\x9f\x98",
                b"\xef\xbb\xbf",
                b"\\x41",
                b"\0007",
                b"\xc3\xa9\xff",
                b"\xe0\x80\xaf",
            ])),
        }
    }
    if nonzero {
        o.retain(|b| *b != 0);
    }
    o
}

/// a long one: runs of one piece around powers of two, other pieces between
pub fn long_bytes(s: &mut Src, nonzero: bool, max_pow: usize) -> Vec<u8> {
    let mut o = rand_bytes(s, nonzero);
    for _ in 0..s.range(1, 2) {
        let n = gen::size(s, max_pow);
        let piece = match s.below(4) {
            0 => vec![b'a' + s.below(26) as u8],
            1 => vec![s.below(256) as u8],
            2 => rand_bytes(s, nonzero),
            _ => (*s.pick(&["é", "日", "😀", "\n", "\\", "\"", "a b ", "0", " "])).as_bytes().to_vec(),
        };
        o.extend(piece.iter().cycle().take(if piece.is_empty() { 0 } else { n }));
        o.extend(rand_bytes(s, nonzero));
    }
    if nonzero {
        o.retain(|b| *b != 0);
    }
    o
}

pub fn long_string(s: &mut Src, max_pow: usize) -> String {
    let base = rand_string(s);
    let mut o = gen::stretch(s, &base, max_pow);
    o.push_str(&rand_string(s));
    o
}

pub fn long_value(s: &mut Src, max_pow: usize) -> Value {
    match s.below(3) {
        0 => Value::Str(long_string(s, max_pow)),
        1 => Value::Bytes(long_bytes(s, false, max_pow)),
        _ => Value::CStr(long_bytes(s, true, max_pow)),
    }
}

pub fn rand_value(s: &mut Src) -> Value {
    match s.below(8) {
        0 | 1 => {
            let ty = *s.pick(INT_TYPES);
            let m = rand_u128(s);
            let (neg, mag) = clamp(ty, s.chance(1, 2), m);
            Value::Int(ty, s.chance(1, 2), neg, mag)
        }
        2 => Value::F64(s.chance(1, 2), rand_f64(s)),
        3 => Value::F32(s.chance(1, 2), rand_f32(s)),
        4 => Value::Str(rand_string(s)),
        5 => {
            if s.chance(1, 2) {
                Value::Byte(s.below(256) as u8)
            } else {
                Value::Char(gen::any_char(s))
            }
        }
        6 => Value::Bytes(rand_bytes(s, false)),
        _ => Value::CStr(rand_bytes(s, true)),
    }
}

/// A literal from some constructor (or parsed, rarely).
pub fn random_literal(s: &mut Src) -> Literal {
    loop_finite(s).map_or_else(|| Literal::u8_unsuffixed(1), |v| make(&v))
}

fn loop_finite(s: &mut Src) -> Option<Value> {
    let v = rand_value(s);
    v.finite().then_some(v)
}

// ------------------------------------------------------------------ C07

/// All values of a 32-bit type that share their upper 16 bits. A quick test
/// lets through what is plainly right; the rest goes through the full check.
fn check_block(ty: &str, upper: u32, cx: &mut Cx) -> R {
    fn digits(s: &str) -> bool {
        !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit())
    }
    cx.nontrivial = true;
    for low in 0..=0xffffu32 {
        cx.extra += 1;
        let bits = upper << 16 | low;
        let (v, w, good) = match ty {
            "f32" => {
                let x = f32::from_bits(bits);
                if !x.is_finite() {
                    if low % 97 == 0 {
                        check_value(&Value::F32(low % 2 == 0, bits).show(), cx)?;
                    }
                    continue;
                }
                let a = Literal::f32_unsuffixed(x).to_string();
                let b = Literal::f32_suffixed(x).to_string();
                let fine = |t: &str, dot: bool| {
                    let (sign, t2) = match t.strip_prefix('-') {
                        Some(rest) => (true, rest),
                        None => (false, t),
                    };
                    let shape = match t2.split_once('.') {
                        Some((i, f)) => digits(i) && digits(f),
                        None => !dot && digits(t2),
                    };
                    shape && sign == x.is_sign_negative() && t.parse::<f32>().is_ok_and(|y| y.to_bits() == bits)
                };
                let good = fine(&a, true) && b.strip_suffix("f32").is_some_and(|b| fine(b, false));
                (Value::F32(false, bits), Value::F32(true, bits), good)
            }
            "u32" => {
                let a = Literal::u32_unsuffixed(bits).to_string();
                let b = Literal::u32_suffixed(bits).to_string();
                let fine = |t: &str| digits(t) && t.parse() == Ok(bits);
                let good = fine(&a) && b.strip_suffix("u32").is_some_and(fine);
                (Value::Int("u32", false, false, bits.into()), Value::Int("u32", true, false, bits.into()), good)
            }
            _ => {
                let n = bits as i32;
                let a = Literal::i32_unsuffixed(n).to_string();
                let b = Literal::i32_suffixed(n).to_string();
                let fine = |t: &str| digits(t.strip_prefix('-').unwrap_or(t)) && t.parse() == Ok(n) && t.starts_with('-') == (n < 0);
                let good = fine(&a) && b.strip_suffix("i32").is_some_and(fine);
                let m = u128::from(n.unsigned_abs());
                (Value::Int("i32", false, n < 0, m), Value::Int("i32", true, n < 0, m), good)
            }
        };
        if !good {
            check_value(&v.show(), cx)?;
            check_value(&w.show(), cx)?;
        }
    }
    Ok(())
}

pub fn check_value(t: &str, cx: &mut Cx) -> R {
    if let Some(rest) = t.strip_prefix("block ") {
        let Some((ty, n)) = rest.split_once(' ') else {
            return Ok(());
        };
        let Ok(n) = n.parse::<u16>() else {
            return Ok(());
        };
        return check_block(ty, n.into(), cx);
    }
    let Some(v) = Value::read(t) else {
        return Ok(());
    };
    cx.nontrivial = true;
    if !v.finite() {
        cx.label("non-finite");
        let r = catch(|| make(&v).to_string());
        return match r {
            Ok(x) => Err(format!("the constructor given a non-finite float ({t}) returned {x:?}")),
            Err(_) => Ok(()),
        };
    }
    let lit = match catch(|| make(&v)) {
        Ok(l) => l,
        Err(p) => return Err(format!("the constructor panicked for {t}: {p}")),
    };
    let text = lit.to_string();
    ensure!(reflex::whole_literal(&text), "built from {}: {} is not one valid Rust literal", short(t), short(&text));
    let Some(d) = refval::decode(&text) else {
        return Err(format!("built from {}: {} has no value", short(t), short(&text)));
    };
    let wrong = || Err(format!("built from {}: {} denotes {:?}", short(t), short(&text), d));
    let plain = !d.negative && d.suffix.is_empty();
    match &v {
        Value::Int(ty, suf, neg, mag) => {
            cx.label("integer");
            let want = if *suf { *ty } else { "" };
            if d.suffix != want || d.negative != *neg || d.val != Val::Int(Some(*mag)) {
                return wrong();
            }
        }
        Value::F64(suf, b) => {
            cx.label("float");
            let Val::Float(n) = &d.val else {
                return wrong();
            };
            let Ok(x) = n.parse::<f64>() else {
                return wrong();
            };
            let x = if d.negative { -x } else { x };
            if x.to_bits() != *b || d.suffix != if *suf { "f64" } else { "" } {
                return wrong();
            }
            if !*suf && !text.contains('.') {
                return Err(format!("{t}: {text} has no decimal point"));
            }
        }
        Value::F32(suf, b) => {
            cx.label("float");
            let Val::Float(n) = &d.val else {
                return wrong();
            };
            let Ok(x) = n.parse::<f32>() else {
                return wrong();
            };
            let x = if d.negative { -x } else { x };
            if x.to_bits() != *b || d.suffix != if *suf { "f32" } else { "" } {
                return wrong();
            }
            if !*suf && !text.contains('.') {
                return Err(format!("{t}: {text} has no decimal point"));
            }
        }
        Value::Str(s) => {
            cx.label("string");
            if !plain || d.val != Val::Str(s.clone()) {
                return wrong();
            }
        }
        Value::Char(c) => {
            cx.label("char");
            if !plain || d.val != Val::Char(*c) {
                return wrong();
            }
        }
        Value::Byte(b) => {
            cx.label("byte");
            if !plain || d.val != Val::Byte(*b) {
                return wrong();
            }
        }
        Value::Bytes(b) => {
            cx.label("byte string");
            if !plain || d.val != Val::Bytes(b.clone()) {
                return wrong();
            }
        }
        Value::CStr(b) => {
            cx.label("C string");
            if !plain || d.val != Val::CStr(b.clone()) {
                return wrong();
            }
        }
    }
    // the library itself takes it as that one literal
    match Literal::from_str(&text) {
        Ok(l) => ensure!(l.to_string() == text, "{} parses back as {}", short(&text), short(&l.to_string())),
        Err(_) => return Err(format!("built from {}: {} is rejected by Literal::from_str", short(t), short(&text))),
    }
    // and it stays that literal inside a stream
    let ts: TokenStream = std::iter::once(TokenTree::Literal(lit.clone())).collect();
    let got = crate::model::dump(ts);
    let mut shown = String::new();
    for t in &got {
        match &t.t {
            Tok::Lit(l) => shown.push_str(l),
            Tok::Punct(c, _) => shown.push(*c),
            _ => shown.push('?'),
        }
    }
    ensure!(shown == text, "the literal {} inside a stream reads {}", short(&text), short(&shown));
    ensure!(lit.clone().to_string() == text && lit.to_string() == text, "the literal's text changed");
    Ok(())
}

const STR_CTX: &[(&str, &str)] = &[("", ""), ("a", "a"), ("\0", ""), ("", "\0"), ("", "0"), ("\\", ""), ("", "\""), ("'", "'"), ("\u{301}", ""), ("\r", "\n")];

fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b {
        let _ = write!(s, "{x:02x}");
    }
    s
}

fn nth_char(i: u64) -> Option<char> {
    let v = if i >= 0xd800 { i + 0x800 } else { i };
    char::from_u32(v as u32)
}
const NCHARS: u64 = 0x110000 - 0x800;

pub fn c07(env: Env) -> Vec<Phase> {
    let check = check_value;
    let f = if env.scale < 100 { 16 } else { 1 };
    let full = move |n: u64| (n + f - 1) / f;
    vec![
        indexed(
            "all-small-integers",
            full(2 * (512 + 131072)),
            move |i| {
                let i = i * f;
                let suf = if i % 2 == 0 { "suffixed" } else { "unsuffixed" };
                let i = i / 2;
                Some(match i {
                    0..=255 => format!("int u8 {suf} {i}"),
                    256..=511 => format!("int i8 {suf} {}", i as i64 - 256 - 128),
                    512..=66047 => format!("int u16 {suf} {}", i - 512),
                    _ => format!("int i16 {suf} {}", i as i64 - 66048 - 32768),
                })
            },
            check,
        ),
        indexed(
            "all-characters",
            full(NCHARS * 2),
            move |i| {
                let i = i * f;
                let c = nth_char(i / 2)?;
                Some(if i % 2 == 0 { format!("char {c}") } else { format!("str {c}") })
            },
            check,
        ),
        indexed(
            "characters-in-context",
            if env.thorough { NCHARS * STR_CTX.len() as u64 } else { full(0x3000 * STR_CTX.len() as u64) },
            |i| {
                let k = STR_CTX.len() as u64;
                let (a, b) = STR_CTX[(i % k) as usize];
                Some(format!("str {a}{}{b}", nth_char(i / k)?))
            },
            check,
        ),
        indexed(
            "all-byte-pairs",
            full(65536 * 2 + 512),
            move |i| {
                let i = i * f;
                Some(match i {
                    0..=255 => format!("byte {i:02x}"),
                    256..=511 => format!("bytes {:02x}", i - 256),
                    _ => {
                        let j = i - 512;
                        let p = [(j / 2 / 256) as u8, (j / 2 % 256) as u8];
                        format!("{} {}", if j % 2 == 0 { "bytes" } else { "cstr" }, hex(&p))
                    }
                })
            },
            check,
        ),
        Phase {
            exhaustive: env.thorough && !cfg!(feature = "spans"),
            ..indexed(
            "32-bit-blocks",
            match (env.thorough, cfg!(feature = "spans")) {
                (true, false) => 3 * 65536,
                (true, true) => 3 * 4096,
                (false, _) => 2 * env.scale,
            },
            |i| {
                // (an odd factor: every block comes up once)
                let n = (i / 3).wrapping_mul(40503).wrapping_add(11) as u16;
                Some(format!("block {} {n}", ["f32", "u32", "i32"][(i % 3) as usize]))
            },
            check,
        )
        },
        text("random-values", env.n(2_000_000), |s| rand_value(s).show(), check),
        text(
            "floats",
            env.n(1_000_000),
            |s| {
                if s.chance(1, 2) {
                    Value::F64(s.chance(1, 2), rand_f64(s)).show()
                } else {
                    Value::F32(s.chance(1, 2), rand_f32(s)).show()
                }
            },
            check,
        ),
        text("strings", env.n(500_000), |s| Value::Str(rand_string(s)).show(), check),
        text("c-strings", env.n(500_000), |s| Value::CStr(rand_bytes(s, true)).show(), check),
        text("byte-strings", env.n(300_000), |s| Value::Bytes(rand_bytes(s, false)).show(), check),
        text("long-random", env.n(100_000), |s| long_value(s, 11).show(), check),
        text("very-long-random", env.n(1_500), |s| long_value(s, 17).show(), check),
        indexed(
            "long-values",
            200,
            |i| {
                let n = [1usize, 63, 64, 65, 255, 256, 1000, 4096, 10_000, 65_536][(i % 10) as usize];
                Some(match i / 10 {
                    0 => format!("str {}", "a".repeat(n)),
                    1 => format!("str {}", "\0".repeat(n)),
                    2 => format!("str {}", "\\\"".repeat(n)),
                    3 => format!("str {}", "日".repeat(n)),
                    4 => format!("str {}", "\u{301}".repeat(n)),
                    5 => format!("bytes {}", "00".repeat(n)),
                    6 => format!("bytes {}", "ff".repeat(n)),
                    7 => format!("bytes {}", "5c22".repeat(n)),
                    8 => format!("cstr {}", "e697".repeat(n)),
                    9 => format!("cstr {}", "e697a5".repeat(n)),
                    10 => format!("cstr {}ff", "61".repeat(n)),
                    11 => format!("cstr f0{}", "9f".repeat(n)),
                    12 => format!("str {}\0{}", "b".repeat(n), "7".repeat(n)),
                    _ => format!("str {}", "\r\n".repeat(n)),
                })
            },
            check,
        ),
    ]
}

// ------------------------------------------------------------------ C08

#[cfg(feature = "exempt")]
fn values_of(lit: &Literal, want: Option<&refval::Decoded>, shown: &str) -> R {
    use proc_macro2::ConversionErrorKind::InvalidLiteralKind;
    let s = catch(|| lit.str_value()).map_err(|p| format!("str_value of {} panicked: {p}", short(shown)))?;
    let b = catch(|| lit.byte_str_value()).map_err(|p| format!("byte_str_value of {} panicked: {p}", short(shown)))?;
    let c = catch(|| lit.cstr_value()).map_err(|p| format!("cstr_value of {} panicked: {p}", short(shown)))?;
    let suffixed = want.is_some_and(|w| !w.suffix.is_empty());
    let val = want.map(|w| &w.val);
    let (ws, wb, wc) = match val {
        Some(Val::Str(x)) => (Some(x.clone()), None, None),
        Some(Val::Bytes(x)) => (None, Some(x.clone()), None),
        Some(Val::CStr(x)) => {
            let mut x = x.clone();
            x.push(0);
            (None, None, Some(x))
        }
        _ => (None, None, None),
    };
    macro_rules! cmp {
        ($name:expr, $got:expr, $want:expr) => {
            match ($want, &$got) {
                (None, Err(InvalidLiteralKind)) => {}
                (None, g) => return Err(format!("{} of {} gives {g:?} instead of the invalid-kind error", $name, short(shown))),
                (Some(w), Ok(g)) => ensure!(*g == w, "{} of {} is {:?} instead of {:?}", $name, short(shown), g, w),
                (Some(_), Err(InvalidLiteralKind)) if suffixed => {}
                (Some(w), Err(e)) => return Err(format!("{} of {} fails with {e:?} instead of giving {w:?}", $name, short(shown))),
            }
        };
    }
    cmp!("str_value", s, ws);
    cmp!("byte_str_value", b, wb);
    cmp!("cstr_value", c, wc);
    Ok(())
}

#[cfg(feature = "exempt")]
fn check_decode(t: &str, cx: &mut Cx) -> R {
    let Ok(lit) = Literal::from_str(t) else {
        cx.label("rejected");
        return Ok(());
    };
    if cfg!(feature = "pm") && !gen::pm_literal(t.strip_prefix('-').unwrap_or(t)) {
        cx.label("left out");
        return Ok(());
    }
    if !reflex::whole_literal(t) {
        // C20 reports acceptance of something that is not a literal; here it
        // only must not panic
        let _ = (lit.str_value(), lit.byte_str_value(), lit.cstr_value());
        return Ok(());
    }
    let want = refval::decode(t);
    match want.as_ref().map(|w| &w.val) {
        Some(Val::Str(_)) => cx.label("string"),
        Some(Val::Bytes(_)) => cx.label("byte string"),
        Some(Val::CStr(_)) => cx.label("C string"),
        _ => cx.label("other kind"),
    }
    cx.nontrivial = matches!(want.as_ref().map(|w| &w.val), Some(Val::Str(_) | Val::Bytes(_) | Val::CStr(_)));
    values_of(&lit, want.as_ref(), t)?;
    values_of(&lit.clone(), want.as_ref(), t)?;
    values_of(&unsafe { Literal::from_str_unchecked(t) }, want.as_ref(), t)?;
    // the same literal out of a stream
    if let Ok(ts) = TokenStream::from_str(t) {
        for tt in ts {
            if let TokenTree::Literal(l) = tt {
                if l.to_string() == t {
                    values_of(&l, want.as_ref(), t)?;
                }
            }
        }
    }
    Ok(())
}

/// every literal of a whole text
#[cfg(feature = "exempt")]
fn check_decode_all(t: &str, cx: &mut Cx) -> R {
    fn walk(ts: TokenStream, cx: &mut Cx) -> R {
        for t in ts {
            match t {
                TokenTree::Group(g) => walk(g.stream(), cx)?,
                TokenTree::Literal(l) => {
                    let text = l.to_string();
                    if reflex::whole_literal(&text) {
                        cx.extra += 1;
                        let want = refval::decode(&text);
                        if matches!(want.as_ref().map(|w| &w.val), Some(Val::Str(_) | Val::Bytes(_) | Val::CStr(_))) {
                            cx.nontrivial = true;
                        }
                        values_of(&l, want.as_ref(), &text)?;
                    }
                }
                _ => {}
            }
        }
        Ok(())
    }
    match TokenStream::from_str(t) {
        Ok(ts) => walk(ts, cx),
        Err(_) => Ok(()),
    }
}

/// literals from constructors give back the value they were built from
#[cfg(feature = "exempt")]
fn check_decode_value(t: &str, cx: &mut Cx) -> R {
    let Some(v) = Value::read(t) else {
        return Ok(());
    };
    if !v.finite() {
        return Ok(());
    }
    cx.nontrivial = matches!(v, Value::Str(_) | Value::Bytes(_) | Value::CStr(_));
    let lit = make(&v);
    let val = match &v {
        Value::Str(s) => Val::Str(s.clone()),
        Value::Bytes(s) => Val::Bytes(s.clone()),
        Value::CStr(s) => Val::CStr(s.clone()),
        _ => Val::Int(None),
    };
    let d = refval::Decoded {
        val,
        suffix: String::new(),
        negative: false,
    };
    values_of(&lit, Some(&d), &lit.to_string())
}

#[cfg(not(feature = "exempt"))]
pub fn c08(_: Env) -> Vec<Phase> {
    Vec::new()
}

#[cfg(feature = "exempt")]
pub fn c08(env: Env) -> Vec<Phase> {
    let t = env.thorough;
    let check = check_decode;
    const WRAP: &[(&str, &str)] = &[
        ("\"", "\""),
        ("b\"", "\""),
        ("c\"", "\""),
        ("r\"", "\""),
        ("br\"", "\""),
        ("cr\"", "\""),
        ("r#\"", "\"#"),
        ("br##\"", "\"##"),
        ("cr#\"", "\"#"),
        ("'", "'"),
        ("b'", "'"),
    ];
    const BODY: &[&str] = &[
        "\\", "n", "\n", "\r\n", " ", "x", "4", "f", "u{61}", "0", "\"", "'", "#", "é", "r", "\t", "t", "\\n", "\\\"",
    ];
    const CHARS: &[(&str, &str)] = &[
        ("\"", "\""),
        ("\"a\\", "\""),
        ("b\"", "\""),
        ("c\"", "\""),
        ("r\"", "\""),
        ("cr#\"", "\"#"),
        ("br\"", "\""),
        ("\"\\\n", "\""),
        ("\"\\\n \t", "x\""),
        ("'", "'"),
        ("\"", "\\\n \""),
        ("c\"\\\n", "\""),
        ("b\"\\\n", "\""),
    ];
    const UESC: &[(&str, &str)] = &[("\"", "\""), ("c\"", "\""), ("'", "'")];
    let depth = if t { 4 } else { 3 };
    let per = gen::total_over(BODY.len() as u64, depth);
    vec![
        text(
            "literals",
            env.n(1_500_000),
            |s| {
                let sl = s.chance(1, 5);
                gen::literal(s, sl)
            },
            check,
        ),
        text(
            "mutated-literals",
            env.n(600_000),
            |s| {
                let l = gen::literal(s, false);
                gen::mutate(s, &l)
            },
            check,
        ),
        text("from-values", env.n(600_000), |s| rand_value(s).show(), check_decode_value),
        text("from-long-values", env.n(60_000), |s| long_value(s, 11).show(), check_decode_value),
        text("from-very-long-values", env.n(1_000), |s| long_value(s, 17).show(), check_decode_value),
        text(
            "stretched-literals",
            env.n(150_000),
            |s| {
                let sl = s.chance(1, 5);
                let l = gen::literal(s, sl);
                gen::stretch(s, &l, 11)
            },
            check,
        ),
        text(
            "stretched-far",
            env.n(1_500),
            |s| {
                let l = gen::literal(s, false);
                gen::stretch(s, &l, 17)
            },
            check,
        ),
        text("tokens", env.n(60_000), gen::tokens, check_decode_all),
        pairs(check),
        words(check),
        real_windows(env.n(30_000), check_decode_all),
        real_files(if t { 200 } else { 40 }, check_decode_all),
        indexed(
            "enum-bodies",
            per * WRAP.len() as u64,
            |i| {
                let k = WRAP.len() as u64;
                let (a, b) = WRAP[(i % k) as usize];
                Some(format!("{a}{}{b}", gen::nth_over(BODY, i / k)))
            },
            check,
        ),
        enum_escapes(if t { 4 } else { 3 }, check),
        enum_unicode_escapes(5, check),
        indexed(
            "chars-in-literals",
            if env.scale < 100 { 0x3000 } else { NCHARS } * CHARS.len() as u64,
            |i| {
                let k = CHARS.len() as u64;
                let (a, b) = CHARS[(i % k) as usize];
                Some(format!("{a}{}{b}", nth_char(i / k)?))
            },
            check,
        ),
        indexed(
            "all-unicode-escapes",
            if env.scale < 100 { 0x3000 } else { 0x110000 } * UESC.len() as u64,
            |i| {
                let k = UESC.len() as u64;
                let (a, b) = UESC[(i % k) as usize];
                let v = i / k;
                Some(if v % 2 == 0 { format!("{a}\\u{{{v:x}}}{b}") } else { format!("{a}\\u{{{v:06X}_}}{b}") })
            },
            check,
        ),
        indexed(
            "all-byte-escapes",
            256 * 5 * 256,
            |i| {
                let (a, b) = [("b\"", "\""), ("c\"", "\""), ("\"", "\""), ("b'", "'"), ("'", "'")][(i % 5) as usize];
                let v = i / 5;
                let (x, y) = (v % 256, v / 256);
                Some(if y == 0 { format!("{a}\\x{x:02x}{b}") } else { format!("{a}\\x{x:02x}\\x{y:02X}{b}") })
            },
            check,
        ),
        indexed(
            "all-hash-levels",
            3 * 256 * 4,
            |i| {
                let p = ["r", "br", "cr"][(i % 3) as usize];
                let k = i / 3;
                let n = (k / 4) as usize;
                let h = "#".repeat(n);
                let body = match k % 4 {
                    0 => String::new(),
                    1 => "a\\n".to_owned(),
                    2 if n > 0 => format!("\"{}", "#".repeat(n - 1)),
                    _ => "#\r\n".to_owned(),
                };
                Some(format!("{p}{h}\"{body}\"{h}"))
            },
            check,
        ),
    ]
}
