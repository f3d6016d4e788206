//! mqsim: deterministic simulation of MQTT endpoints built on `mqttbytes`.
//!
//!   mqsim check  <property> <tier> <verif dir>     run the check of one property
//!   mqsim replay <file> [verif dir]                re-execute a replay file
//!
//! The other subcommands are the processes `check` starts.
mod alloc;
mod broker;
mod cover;
mod driver;
mod gen;
mod giant;
mod known;
mod model;
mod qos;
mod real;
mod refcodec;
mod rng;
mod route;
mod scenario;
mod seam;
mod shrink;
mod sim;
mod soak;
mod stats;
mod threads;
mod worker;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let s = |i: usize| a.get(i).cloned().unwrap_or_default();
    let code = match s(1).as_str() {
        "check" => driver::check(&s(2), &s(3), &s(4)),
        "replay" => driver::replay(&s(2), &s(3)),
        "worker" => worker::main(&a[2..]),
        "one" => worker::one(&a[2..]),
        "history" => worker::history(&a[2..]),
        "shrink" => shrink::main(&a[2..]),
        _ => {
            eprintln!("usage: mqsim check <property> <quick|thorough> <verif dir> | mqsim replay <file>");
            2
        }
    };
    std::process::exit(code);
}
