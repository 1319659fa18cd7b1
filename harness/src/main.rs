//! Conformance harness: runs the real matchers, parsers, loaders and helpers of
//! actiondb and either records what they do as a trace of the specification
//! (`record`) or compares it with what the specification says (`replay`).
#![allow(bare_trait_objects)]
mod docs;
mod exec;
mod gen;
mod model;
mod record;
mod record2;
mod replay;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).cloned().unwrap_or_default();
    let run = move || cmd_of(&args);
    let trace = cmd == "record" && std::env::args().nth(2).map_or(false, |p| p == "C05");
    exec::start(trace);
    // as much stack as a main thread has
    let code = std::thread::Builder::new().stack_size(8 << 20).spawn(run).unwrap().join().unwrap_or(4);
    if cmd != "cold" {
        let base = docs::scratch();
        let _ = std::fs::remove_dir_all(&base);
    }
    std::process::exit(code);
}

fn cmd_of(args: &[String]) -> i32 {
    match &args[1][..] {
        "record" => {
            let mut out = record::Out::new(&args[5]);
            record::record(&args[2], args[3].parse().unwrap(), args[4].parse().unwrap(), &mut out);
            println!("{{\"calls\": {}, \"lines\": {}}}", exec::calls(), out.lines);
            0
        }
        "replay" => replay::replay(&args[2], &args[3]),
        "finding" => {
            let there = match &args[2][..] {
                "yaml-float" => docs::yaml_float(),
                _ => false,
            };
            println!("{}", if there { "present" } else { "gone" });
            0
        }
        "cold" => {
            record::cold();
            0
        }
        _ => 2,
    }
}
