mod alloc;
mod cases;
mod checks;
mod cost;
mod faults;
mod gen;
mod guided;
mod model;
mod obs;
mod pure;
mod retain;
mod rng;
mod run;
mod stress;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = match args.first().map(|s| s.as_str()) {
        Some("run") => run::run(&args[1..]),
        Some("one") => run::one(&args[1..]),
        Some("dict") => {
            gen::Dict::from_sources(&args[1]).print();
            0
        }
        Some("dump") => run::dump(&args[1..]),
        Some("file") => run::file(&args[1..]),
        Some("replay") => run::replay(&args[1..]),
        Some("guided") => guided::main(&args[1..]),
        Some("cost") => cost::main(&args[1..]),
        Some("screen") => cost::screen(&args[1..]),
        Some("digest") => pure::digest(&args[1..]),
        Some("threads") => pure::threads(&args[1..]),
        Some("fresh") => retain::fresh(&args[1..]),
        Some("history") => pure::history(&args[1..]),
        _ => {
            eprintln!("usage: mon run|one|replay|cost|digest|threads|history ...");
            2
        }
    };
    std::process::exit(code);
}
