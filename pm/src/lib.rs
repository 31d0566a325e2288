//! Runs the harness inside a procedural macro. The arguments come from the
//! environment; the process ends when the harness is done.

extern crate proc_macro;

use std::io::Write as _;

#[proc_macro]
pub fn run(input: proc_macro::TokenStream) -> proc_macro::TokenStream {
    let args: Vec<String> = std::env::var("VH_ARGS").expect("VH_ARGS").split('\x1f').map(str::to_owned).collect();
    if vh::pmspans::enter(input, &args) {
        return proc_macro::TokenStream::new();
    }
    let code = vh::host::main(&args);
    let _ = std::io::stdout().flush();
    std::process::exit(code)
}
