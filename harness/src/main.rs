//! Runtime monitors for mollusc's properties: see /verif/DESIGN.md.

mod ambient;
mod bits;
mod ctx;
mod driver;
mod irgen;
mod layout;
mod llvm;
mod mapgen;
mod mem;
mod modgen;
mod obs;
mod props;
mod real;
mod refmap;
mod stream;
mod tables;
mod util;

#[global_allocator]
static ALLOC: mem::Counting = mem::Counting;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    match args.first().map(|s| s.as_str()) {
        Some("run") => std::process::exit(driver::run(&args[1..])),
        Some("worker") => driver::worker(&args[1..]),
        Some("case") => driver::single(&args[1..]),
        Some("replay") => std::process::exit(driver::replay(&args[1..])),
        Some("transcript") => props::transcript(&args[1]),
        Some("list") => {
            for p in props::ALL {
                println!("{}", p.id);
            }
        }
        _ => {
            eprintln!("usage: molluscmon run ID [quick|thorough] [SEED] | case ID TIER SEED CASE | replay FILE | list");
            std::process::exit(2);
        }
    }
}
