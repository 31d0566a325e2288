#[global_allocator]
static A: vh::alloc::Counting = vh::alloc::Counting;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    std::process::exit(vh::host::main(&args));
}
