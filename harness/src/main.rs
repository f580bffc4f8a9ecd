mod case;
mod cli;
mod compare;
mod decl;
mod gen;
mod guard;
mod json;
mod model;
mod props;
mod run;
mod rustc;
mod sut;
mod workers;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let usage = "usage: vharness check <ID> | replay <ID> <file> | gen <ID> <n>";
    let (cmd, id) = match (a.get(1), a.get(2)) {
        (Some(c), Some(i)) => (c.as_str(), i.as_str()),
        _ => run::harness_error(usage),
    };
    run::quiet_panics();
    let Some(p) = props::by_id(id) else { run::harness_error(&format!("unknown property {id}")) };
    if cmd != "gen" && std::env::var_os("VERIF_CHILD").is_none() {
        std::process::exit(guard::parent(&p, &a[1..]));
    }
    guard::child(&p, cmd == "replay");
    let rc = match cmd {
        "check" => run::run(p),
        "replay" => run::replay(&p, a.get(3).map(|s| s.as_str()).unwrap_or_else(|| run::harness_error(usage))),
        "gen" => {
            for (label, _, g) in p.campaigns.iter().chain(p.batch.iter().flat_map(|b| b.campaigns.iter())) {
                let mut r = run::rng_for(label, 0);
                for _ in 0..a.get(3).and_then(|s| s.parse().ok()).unwrap_or(5) {
                    println!("{label} {}", g(&mut r).to_json());
                }
            }
            0
        }
        _ => run::harness_error(usage),
    };
    sut::cleanup();
    std::process::exit(rc);
}
