//! C16: the same observations in every build of the library. The driver loads
//! the other builds as shared libraries and compares with its own.

use super::common::*;
use super::Env;
use crate::engine::*;
use crate::gen;
use crate::obs;
use std::ffi::{c_char, c_int, c_void, CString};
use std::sync::OnceLock;

extern "C" {
    fn dlopen(p: *const c_char, flags: c_int) -> *mut c_void;
    fn dlsym(h: *mut c_void, s: *const c_char) -> *mut c_void;
}

struct Lib {
    name: String,
    observe: obs::Observe,
    /// characters its standard library treats differently
    strange: Vec<char>,
}

fn libs() -> &'static [Lib] {
    static L: OnceLock<Vec<Lib>> = OnceLock::new();
    L.get_or_init(|| {
        let mut v = Vec::new();
        for k in 0.. {
            let Ok(e) = std::env::var(format!("VH_LIB_{k}")) else {
                break;
            };
            let (name, path) = e.split_once('=').expect("name=path");
            let p = CString::new(path).unwrap();
            unsafe {
                let h = dlopen(p.as_ptr(), 2);
                assert!(!h.is_null(), "cannot load {path}");
                let f = dlsym(h, c"vh_observe".as_ptr());
                let g = dlsym(h, c"vh_std_view".as_ptr());
                assert!(!f.is_null() && !g.is_null(), "symbols of {path}");
                let view: obs::StdView = std::mem::transmute(g);
                let strange = ('\0'..=char::MAX).filter(|&c| view(c as u32) != obs::std_view(c)).collect();
                v.push(Lib {
                    name: name.to_owned(),
                    observe: std::mem::transmute::<*mut c_void, obs::Observe>(f),
                    strange,
                });
            }
        }
        assert!(!v.is_empty(), "no other builds given");
        v
    })
}

extern "C" fn sink(data: *mut c_void, p: *const u8, n: usize) {
    let v = unsafe { &mut *data.cast::<Vec<u8>>() };
    v.extend_from_slice(unsafe { std::slice::from_raw_parts(p, n) });
}

fn compare(kind: u32, p: *const u8, n: usize, mine: &str, what: &dyn Fn() -> String, skip: &dyn Fn(&Lib) -> bool, cx: &mut Cx) -> R {
    for l in libs() {
        if skip(l) {
            cx.label("standard libraries differ");
            continue;
        }
        let mut out: Vec<u8> = Vec::new();
        unsafe { (l.observe)(kind, p, n, sink, (&raw mut out).cast()) };
        cx.extra += 1;
        if out != mine.as_bytes() {
            let theirs = String::from_utf8_lossy(&out);
            let a: Vec<char> = mine.chars().collect();
            let b: Vec<char> = theirs.chars().collect();
            let d = a.iter().zip(&b).take_while(|(x, y)| x == y).count();
            let from = d.saturating_sub(40);
            let cut = |v: &[char]| v[from.min(v.len())..(d + 80).min(v.len())].iter().collect::<String>();
            return Err(format!(
                "{}: without features one observes ...{:?}..., in the build {} ...{:?}...",
                what(),
                cut(&a),
                l.name,
                cut(&b)
            ));
        }
    }
    Ok(())
}

/// Whether a build's standard library treats a character of the text
/// differently; one may be there itself or as the escape `\u{...}`.
fn differs(l: &Lib, t: &str) -> bool {
    let strange = |c: char| c as u32 > 0x7f && l.strange.binary_search(&c).is_ok();
    let code = |r: &str| char::from_u32(u32::from_str_radix(&r.split('}').next()?.replace('_', ""), 16).ok()?);
    !l.strange.is_empty() && (t.chars().any(strange) || t.split("\\u{").skip(1).filter_map(code).any(strange))
}

/// Non-trivial: at least two characters.
fn check_text(t: &str, cx: &mut Cx) -> R {
    cx.nontrivial = t.chars().nth(1).is_some();
    let mine = obs::of_text(t);
    compare(0, t.as_ptr(), t.len(), &mine, &|| short(t), &|l| differs(l, t), cx)
}

/// Non-trivial: every history with at least 200 bytes of observations.
fn check_tape(s: &mut Src, cx: &mut Cx) -> R {
    let n = s.range(8, 400);
    let tape: Vec<u64> = (0..n).map(|_| s.u64()).collect();
    let mine = obs::of_tape(&tape);
    cx.nontrivial = mine.len() >= 200;
    if cx.want_sample {
        cx.sample = Some(mine.chars().take(400).collect());
    }
    compare(1, tape.as_ptr().cast(), tape.len(), &mine, &|| format!("history of {} choices", tape.len()), &|l| differs(l, &mine), cx)
}

pub fn c16(env: Env) -> Vec<Phase> {
    libs();
    let check = check_text;
    let mut v = vec![
        tape("histories", env.n(40_000), check_tape),
        text("tokens", env.n(20_000), gen::tokens, check),
        text("sloppy", env.n(40_000), gen::sloppy, check),
        text("mutated", env.n(30_000), gen::mutated, check),
        text("fragments", env.n(60_000), gen::frags, check),
        text("hot", env.n(100_000), gen::hot, check),
        text("names", env.n(30_000), gen::ident_text, check),
        real_windows(env.n(4_000), check),
        text("stretched", env.n(6_000), |s| gen::stretched_to(s, 10), check),
        words(check),
        boundaries(if env.thorough { 10 } else { 8 }, check),
        enum_frags(2, check),
        enum_escapes(3, check),
        some_pairs(if env.thorough { 1 } else { 5 }, check),
        enumerate((E_NUM.0, E_NUM.1, 4, 6), 0, env.thorough, check),
        enumerate((E_QUOTE.0, E_QUOTE.1, 4, 5), 0, env.thorough, check),
        enumerate((E_PUNCT.0, E_PUNCT.1, 4, 5), 0, env.thorough, check),
        enumerate((E_COMMENT.0, E_COMMENT.1, 5, 7), 0, env.thorough, check),
    ];
    v.push(nesting(260, check));
    v
}
