#![cfg_attr(feature = "nightly", feature(proc_macro_span, proc_macro_def_site))]
pub mod alloc;
pub mod engine;
pub mod gen;
#[allow(static_mut_refs)]
pub mod guide;
pub mod host;
pub mod model;
pub mod obs;
pub mod pmspans;
pub mod props;
pub mod reflex;
pub mod refval;
