mod case;
mod engine;
mod gen_cnf;
mod lab;
mod oracle;
mod props;
mod rng;
mod util;

fn main() {
    if std::env::var_os("SPLRCHECK_ARGS").is_some() {
        return props::options::args_main();
    }
    let a: Vec<String> = std::env::args().collect();
    let cmd = a.get(1).map(|s| s.as_str()).unwrap_or("");
    let props = props::all();
    if cmd == "list" {
        for p in &props {
            println!("{}", p.id());
        }
        return;
    }
    if cmd == "selftest" {
        let n = a.get(2).and_then(|s| s.parse().ok()).unwrap_or(100_000);
        std::process::exit(oracle::selftest::run(1, n));
    }
    let Some(id) = a.get(2) else {
        eprintln!("usage: splrcheck check|worker|replay|show ID [FILE|INDEX]");
        std::process::exit(2);
    };
    let Some(p) = props.iter().find(|p| p.id() == id) else {
        eprintln!("unknown property {id}");
        std::process::exit(2);
    };
    let seed = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1u64);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => engine::Tier::Thorough,
        _ => engine::Tier::Quick,
    };
    let code = match cmd {
        "fingerprint" => {
            props::settings::fingerprint_main();
            0
        }
        "answers" => {
            props::checked::answers_main();
            0
        }
        "check" => engine::check(p.as_ref(), seed, tier),
        "worker" => {
            engine::worker(p.as_ref(), seed, tier);
            0
        }
        "replay" => engine::replay(p.as_ref(), &a[3]),
        "show" => {
            let idx: u64 = a[3].parse().unwrap();
            print!(
                "{}",
                p.generate(&mut rng::Rng::for_case(seed, p.id(), idx), idx, tier)
                    .encode()
            );
            0
        }
        _ => 2,
    };
    std::process::exit(code);
}
