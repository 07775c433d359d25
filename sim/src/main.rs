mod alloc;
mod codec;
#[macro_use]
mod core;
mod fsim;
mod io;
mod model;
mod props;
mod refzip;
mod runner;

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let s = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let n = |i: usize| s(i).parse::<u64>().expect("number");
    let prop = |i: usize| match props::PROPS.iter().find(|p| p.id == s(i)) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", s(i));
            std::process::exit(2)
        }
    };
    let code = match s(1) {
        // check PROPERTY SEED TIER OUTDIR
        "check" => runner::check(prop(2), n(3), s(4), s(5)),
        // worker PROPERTY SEED START STRIDE RUNS CAP
        "worker" => runner::worker(prop(2), n(3), n(4), n(5), n(6), n(7), std::env::var_os("ZIPSIM_LOG").is_some()),
        "minimise" => runner::minimise(s(2)),
        "replay" => runner::replay(s(2)),
        "list" => {
            for p in props::PROPS {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: zipsim check|worker|minimise|replay|list ...");
            2
        }
    };
    std::process::exit(code);
}
