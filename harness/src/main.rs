mod common;
mod conn_eng;
mod core_eng;
mod link_eng;
mod long_eng;
mod msg_eng;
mod netcode;
mod p2p_eng;
mod sync_eng;
mod transport;

fn main() {
    let args = common::parse_args();
    if args.engine.is_empty() {
        return; // `cargo test` smoke run
    }
    common::install_panic_hook();
    let mut tr = common::Trace::new(&args.out);
    match args.engine.as_str() {
        "conn" => conn_eng::run(&args, &mut tr),
        "core" => core_eng::run(&args, &mut tr),
        "link" => link_eng::run(&args, &mut tr),
        "long" => long_eng::run(&args, &mut tr),
        "p2p" => p2p_eng::run(&args, &mut tr),
        "msg" => msg_eng::run(&args, &mut tr),
        "sync" => sync_eng::run(&args, &mut tr),
        "netcode" => netcode::run(&args, &mut tr),
        "transport" => transport::run(&args, &mut tr),
        e => {
            eprintln!("unknown engine {e}");
            std::process::exit(2);
        }
    }
    tr.flush();
    println!("EVENTS {}", tr.events);
}
