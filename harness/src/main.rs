#![allow(dead_code)]
mod client;
mod codes;
mod consts;
mod json;
mod lists;
mod looped;
mod marsh;
mod platform;
mod server;
mod sim;
mod sized;
mod tcp;
mod util;
mod wire;

fn main() {
    if std::env::var_os("VERIF_DEBUG").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let num = |i: usize| a.get(i).and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
    match arg(1) {
        "caps" => wire::caps(arg(2)),
        "wire" => wire::run(arg(2), arg(3), num(4), num(5) as usize, num(6) as usize),
        "sized" => sized::run(arg(2), arg(3)),
        "lists" => lists::run(arg(2), arg(3)),
        "client" => client::run(arg(2), arg(3), num(4), num(5) as usize),
        "server" => server::run(arg(2), arg(3), num(4), num(5) as usize),
        "adapters" => platform::adapters(arg(2), arg(3)),
        "buffers" => platform::buffers(arg(2), arg(3)),
        "tcp" => tcp::run(arg(2), arg(3)),
        "fakesim" => sim::fakesim(arg(2)),
        "simcase" => sim::simcase(arg(2), arg(3), arg(4), arg(5)),
        "sim" => sim::run(arg(2), arg(3)),
        "consts" => consts::run(arg(2)),
        "codes" => codes::codes(arg(2), arg(3)),
        "handles" => codes::handles(arg(2), arg(3)),
        "marsh" => marsh::run(arg(2), arg(3)),
        "loop" => looped::run(arg(2), arg(3), num(4), num(5) as usize),
        x => {
            eprintln!("unknown command {x}");
            std::process::exit(2);
        }
    }
}
