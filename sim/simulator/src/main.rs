mod classify;
mod aqua;
mod deploy;
mod disk;
mod driver;
mod exec;
mod flow;
mod gen;
mod host;
mod keys;
mod lib_world;
mod model;
mod node;
mod rng;
mod shrink;
mod trace;

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let s = |i: usize| a.get(i).map(|x| x.as_str()).unwrap_or("");
    let n = |i: usize| s(i).parse::<u64>().unwrap_or(0);
    disk::install();
    let code = match s(0) {
        // check <property> <tier> <seed> <evidence file> <replay dir> <known findings file>
        "check" => driver::check(s(1), s(2), n(3), s(4), s(5), s(6)),
        // worker <property> <first seed> <step> <count> <wall seconds>
        "worker" => driver::worker(s(1), n(2), n(3), n(4), n(5)),
        // replay <file>
        "replay" => driver::replay(s(1)),
        // trace <file>: run a trace, report only whether it fails
        "trace" => driver::trace(s(1)),
        // journal <property> <seed> <file>
        "journal" => driver::journal(s(1), n(2), s(3)),
        // finding <property> <bit> <first seed> <file>: search and shrink an instance of a known finding
        "finding" => driver::finding(s(1), n(2) as u8, n(3), s(4)),
        // digests <property> <first seed> <count>
        "digests" => driver::digests(s(1), n(2), n(3)),
        _ => {
            eprintln!("usage: tgsim check|worker|replay|trace|journal|digests ...");
            2
        }
    };
    std::process::exit(code);
}
