pub mod common;
pub mod configs;
pub mod debug;
pub mod history;
#[cfg(feature = "count")]
pub mod growth;
pub mod lex;
#[cfg(any(feature = "pm", feature = "bare"))]
pub mod native;
#[cfg(feature = "bare")]
pub mod bare;
#[cfg(feature = "wrap")]
pub mod pm;
pub mod print;
pub mod spans;
pub mod tokens;
pub mod values;


use crate::engine::Phase;

#[derive(Clone, Copy)]
pub struct Env {
    pub thorough: bool,
    /// scales the number of cases of sampled phases, in percent
    pub scale: u64,
}

impl Env {
    pub fn n(&self, quick: u64) -> u64 {
        let q = if self.thorough { quick.saturating_mul(12) } else { quick };
        (q * self.scale / 100).max(1)
    }
}

pub fn phases(prop: &str, env: Env) -> Vec<Phase> {
    #[cfg(feature = "pm")]
    if let Some(v) = pm::inside(prop, env) {
        return v;
    }
    match prop {
        "C01" => lex::c01(env),
        "C02" => lex::c02(env),
        "C03" => lex::c03(env),
        "C04" => lex::c04(env),
        "C05" => print::c05(env),
        "C06" => print::c06(env),
        "C07" => values::c07(env),
        "C08" => values::c08(env),
        "C09" => tokens::c09(env),
        "C10" => tokens::c10(env),
        "C11" => history::c11(env),
        "C12" => history::c12(env),
        "C13" => spans::c13(env),
        "C14" => spans::c14(env),

        "C15" => lex::c15(env),
        "C16" => configs::c16(env),
        #[cfg(feature = "pm")]
        "C17" => pm::c17(env),
        #[cfg(feature = "wrap")]
        "C18" => pm::c18(env),
        #[cfg(feature = "bare")]
        "C18" => bare::c18(env),
        "C19" => debug::c19(env),
        "C20" => lex::c20(env),
        #[cfg(feature = "count")]
        "C21" => growth::c21(env),
        _ => panic!("unknown property {prop}"),
    }
}

/// Stack size of the worker threads.
pub fn stack(prop: &str) -> usize {
    match prop {
        "C01" | "C12" => 1 << 20,
        _ => 16 << 20,
    }
}
