mod bridge;
mod fw;
mod guard;
mod known;
mod props;
mod run;
mod tool;

#[global_allocator]
static ALLOC: guard::Counting = guard::Counting;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = run::main(&args);
    std::process::exit(code);
}
