//! Deterministic simulation of dd-sensitive-data-scanner.
mod check;
mod driver;
mod ev;
mod exec;
mod gen;
mod model;
mod net;
mod plan;
mod rec;
#[global_allocator]
static A: detsim::alloc::DetAlloc = detsim::alloc::DetAlloc;
fn main() {
    detsim::interpose::link();
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let code = match arg(1) {
        "check" => driver::cmd_check(arg(2), if arg(3).is_empty() { "quick" } else { arg(3) }),
        "replay" => driver::cmd_replay(arg(2)),
        "plan" => {
            println!("{}", serde_json::to_string_pretty(&gen::generate(arg(2), arg(3).parse().unwrap())).unwrap());
            0
        }
        "one" => {
            let p = if arg(2).ends_with(".json") {
                serde_json::from_str(&std::fs::read_to_string(arg(2)).unwrap()).unwrap()
            } else {
                gen::generate(arg(2), arg(3).parse().unwrap())
            };
            let o = driver::run_one(&driver::Shared_::new(), &p, false, 400);
            println!("{}", serde_json::to_string_pretty(&o).unwrap());
            0
        }
        _ => {
            eprintln!("usage: sdsim check <property> [quick|thorough] | replay <file> | plan <property> <seed> | one <property> <seed>");
            2
        }
    };
    std::process::exit(code)
}
