mod broker;
mod builder;
mod codec;
mod life;
mod mqtt;
mod pkt;
mod rng;
mod timed;
mod topics;
mod watch;

#[global_allocator]
static A: codec::Counting = codec::Counting;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    watch::start(if args.get(1).map(|s| &s[..]) == Some("timed") { 300 } else { 60 });
    match args.get(1).map(|s| s.as_str()) {
        Some("codec") => codec::run(&args[2..]),
        Some("builder") => builder::run(&args[2..]),
        Some("topics-seq") => topics::seq(&args[2..]),
        Some("topics-conc") => topics::conc(&args[2..]),
        Some("timed") => timed::run(&args[2..]),
        Some("life") => life::run(&args[2..]),
        Some("broker") => broker::run(&args[2..]),
        m => {
            eprintln!("unknown mode {:?}", m);
            std::process::exit(2);
        }
    }
}
