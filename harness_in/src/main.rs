#[path = "../../harness/src/common.rs"]
#[allow(dead_code)]
mod common;
mod buf_eng;
mod input_eng;

fn main() {
    let args = common::parse_args();
    if args.engine.is_empty() {
        return; // `cargo test` smoke run
    }
    common::install_panic_hook();
    let mut tr = common::Trace::new(&args.out);
    match args.engine.as_str() {
        "inbuf" => buf_eng::run(&args, &mut tr),
        "input" => input_eng::run(&args, &mut tr),
        e => {
            eprintln!("unknown engine {e}");
            std::process::exit(2);
        }
    }
    tr.flush();
    println!("EVENTS {}", tr.events);
}
