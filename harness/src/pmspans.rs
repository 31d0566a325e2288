//! State of a run inside a procedural macro: the compiler's own tokens of the
//! macro's input, and which backend the very first call used.

use proc_macro2::{Span, TokenStream, TokenTree};
use std::cell::RefCell;

#[cfg(any(feature = "pm", feature = "bare"))]
extern crate proc_macro;

thread_local! {
    static SPANS: RefCell<Vec<Span>> = const { RefCell::new(Vec::new()) };
    static INPUT: RefCell<Option<TokenStream>> = const { RefCell::new(None) };
}

#[cfg(any(feature = "pm", feature = "bare"))]
thread_local! {
    static RAW: RefCell<Option<proc_macro::TokenStream>> = const { RefCell::new(None) };
}

/// The macro's input as the compiler gave it.
#[cfg(any(feature = "pm", feature = "bare"))]
pub fn raw_input() -> proc_macro::TokenStream {
    RAW.with(|s| s.borrow().clone()).unwrap_or_default()
}

pub fn input_spans() -> Vec<Span> {
    SPANS.with(|s| s.borrow().clone())
}

/// The macro's input.
pub fn input() -> TokenStream {
    INPUT.with(|s| s.borrow().clone()).unwrap_or_default()
}

fn walk(ts: TokenStream, v: &mut Vec<Span>) {
    for t in ts {
        v.push(t.span());
        if let TokenTree::Group(g) = t {
            walk(g.stream(), v);
        }
    }
}

/// Is this all the process is to do?
#[cfg(feature = "pm")]
pub fn enter(input: proc_macro::TokenStream, args: &[String]) -> bool {
    crate::engine::install_hook();
    if args.first().map(String::as_str) == Some("texts") {
        use std::io::Read as _;
        let mut all = String::new();
        std::io::stdin().read_to_string(&mut all).expect("texts");
        crate::props::pm::read_texts(&all);
        return true;
    }
    if args.first().map(String::as_str) == Some("fresh") {
        // the first call of the process into the library
        let which = args.get(1).and_then(|k| k.parse().ok()).unwrap_or(0);
        match crate::props::pm::first_call(which, &input) {
            None => println!("ok"),
            Some(m) => println!("{m}"),
        }
        use std::io::Write as _;
        let _ = std::io::stdout().flush();
        std::process::exit(0);
    }
    RAW.with(|s| *s.borrow_mut() = Some(input.clone()));
    let ts = TokenStream::from(input);
    let mut v = Vec::new();
    walk(ts.clone(), &mut v);
    SPANS.with(|s| *s.borrow_mut() = v);
    INPUT.with(|s| *s.borrow_mut() = Some(ts));
    false
}

#[cfg(not(feature = "pm"))]
#[allow(dead_code)]
fn unused(ts: TokenStream) {
    walk(ts, &mut Vec::new());
}

/// Inside a macro, but with the library working by itself.
#[cfg(feature = "bare")]
pub fn enter(input: proc_macro::TokenStream, _: &[String]) -> bool {
    crate::engine::install_hook();
    RAW.with(|s| *s.borrow_mut() = Some(input));
    false
}
