//! Conformance harness: runs the real code and records traces for the TLA+ specification.
mod capi;
mod conc;
mod dist;
mod fmt;
mod io;
mod large;
mod life;
mod par;
mod replay;
mod seq;
mod util;

/// all messages are formatted, and forgotten: their arguments are code as well
struct Formats;
impl log::Log for Formats {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        std::hint::black_box(format!("{}", r.args()));
    }
    fn flush(&self) {}
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if std::env::var("VH_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let args = util::Args::parse(&a[2..]);
    // in some runs with the messages of all levels
    if args.u("seed", 0) % 4 == 1 && !matches!(a[1].as_str(), "large" | "levels") && args.u("bulk", 0) == 0 {
        log::set_logger(&Formats).unwrap();
        log::set_max_level(log::LevelFilter::Trace);
    }
    match a[1].as_str() {
        "seq" => seq::main(&args),
        "large" => large::main(&args),
        "psearch" => par::main_search(&args),
        "pinsert" => par::main_insert(&args),
        "replay" => replay::main(&args),
        "files" => io::main_files(&args),
        "fmt" => fmt::main_fmt(&args),
        "capi" => capi::main(&args),
        "levels" => life::main_levels(&args),
        "drop" => life::main_drop(&args),
        "crash" => fmt::main_crash(&args),
        "conc" => conc::main(&args),
        x => {
            eprintln!("unknown command {}", x);
            std::process::exit(2);
        }
    }
}
