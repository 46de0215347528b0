mod alloc;
#[cfg(feature = "usual")]
mod arrowio;
mod hurt;
mod model;
mod mpq;
mod props;
mod report;
mod rng;
mod scen;
mod schema;
mod sha;
mod synth;
mod typed;
mod wire;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() == 4 && args[1] == "--digest" {
        report::install_panic_hook();
        props::config::print_items(args[2].parse().expect("harness: seed"), args[3].parse().expect("harness: count"));
        return;
    }
    if args.len() < 4 {
        eprintln!("usage: harness <ID> quick|thorough <seed> [--replay <file>]");
        std::process::exit(2);
    }
    let (id, tier) = (args[1].clone(), args[2].clone());
    let mut seed: u64 = args[3].parse().unwrap_or(1);
    let mut only = None;
    if let Some(i) = args.iter().position(|a| a == "--replay") {
        let j: serde_json::Value = serde_json::from_slice(&std::fs::read(&args[i + 1]).expect("replay file")).expect("replay json");
        only = Some((j["part"].as_str().unwrap().to_string(), j["case"].as_str().unwrap().parse::<u64>().unwrap()));
        seed = j["seed"].as_u64().unwrap_or(seed);
    }
    report::install_panic_hook();
    report::watch::start();
    let mut run = report::Run::new(&id, tier == "thorough", seed);
    run.only = only;
    let Some(f) = props::find(&id) else {
        eprintln!("no check for {id}");
        std::process::exit(2);
    };
    report::mute_stdout();
    // a panic outside of the cases is a problem of the harness
    match report::guard(|| {
        f(&mut run);
        run
    }) {
        Ok(run) => std::process::exit(run.finish()),
        Err((loc, msg)) => {
            report::unmute_stdout();
            println!("ERROR (no verdict): {loc}: {msg}");
            std::process::exit(2);
        }
    }
}
