mod alloc;
mod attack;
#[macro_use]
mod ctx;
mod evolve;
mod gen;
mod intro;
mod meter;
mod model;
mod mutate;
mod net;
mod odd;
mod props;
mod refdiff;
mod refexec;
mod refparse;
mod refval;
mod runner;
mod sdlmut;
mod service;
mod snap;
mod tape;
mod tenant;
mod typed;
mod vars;
mod world;

fn main() {
    runner::install_hook();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let s: Vec<&str> = a.iter().map(|x| x.as_str()).collect();
    match s.as_slice() {
        ["check", id, rest @ ..] => {
            let tier = match rest {
                ["--tier", t] | [t] => t,
                _ => "quick",
            };
            runner::check(id, tier)
        }
        ["worker", ..] => runner::worker(&a[1..]),
        ["replay", f] => runner::replay(f, false),
        ["replay-raw", f] => runner::replay(f, true),
        ["one", id, seed] => {
            let p = props::get(id).expect("no such property");
            let seed: u64 = seed.strip_prefix("0x").map(|h| u64::from_str_radix(h, 16).unwrap()).unwrap_or_else(|| seed.parse().unwrap());
            alloc::init_off();
            let _ = runner::run_one(p, tape::Tape::from_data(vec![]), false);
            alloc::init();
            let r = runner::run_one(p, tape::Tape::from_seed(seed), true);
            println!("{}", r.trace.join("\n"));
            println!("{:?} digest {:016x} steps {} nontrivial {}", r.violation, r.digest, r.steps, r.nontrivial);
        }
        ["typed-gen", seed, n, dir, only @ ..] => typed::write(seed.parse().unwrap(), n.parse().unwrap(), dir, only.first().map(|o| o.parse().unwrap())),
        ["typed-bad", seed, n, dir, only @ ..] => typed::write_bad(seed.parse().unwrap(), n.parse().unwrap(), dir, only.first().map(|o| o.parse().unwrap())),
        ["typed-bad-judge", dir, log] => match typed::judge_bad(dir, log) {
            Ok(n) => println!("{n}"),
            Err(e) => {
                println!("{e}");
                std::process::exit(1)
            }
        },
        ["typed-suspects", dir, log, n] => typed::suspects(dir, log, n.parse().unwrap()).iter().for_each(|i| println!("{i}")),
        ["typed-replay", dir, log, args] => println!("{}", typed::replay_file(dir, log, args)),
        ["typed-args", file] => match typed::replay_args(file) {
            Some(a) => println!("{a}"),
            None => std::process::exit(1),
        },
        ["deep", n] => {
            props::s17::deep(n.parse().unwrap());
        }
        _ => {
            eprintln!("usage: sim check ID [--tier quick|thorough] | replay FILE | one ID SEED");
            std::process::exit(2)
        }
    }
}
