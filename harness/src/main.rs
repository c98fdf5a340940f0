mod alloc;
#[cfg(feature = "guided")]
mod cov;
mod engine;
#[cfg(feature = "guided")]
mod guided;
mod props;
mod refimpl;
mod runner;

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

fn main() {
    engine::install_panic_hook();
    runner::watch_crashes();
    let args: Vec<String> = std::env::args().collect();
    let all = props::all();
    let usage = "usage: harness list | run ID [FACET] | replay FILE";
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in &all {
                let f: Vec<&str> = p.facets.iter().map(|f| f.name).collect();
                println!("{} {}", p.id, f.join(" "));
            }
        }
        Some("run") if args.len() >= 3 => {
            let Some(p) = all.iter().find(|p| p.id == args[2]) else {
                eprintln!("unknown property {}", args[2]);
                std::process::exit(2);
            };
            let seed: u64 = match std::env::var("VERIF_SEED") {
                Ok(s) => match s.trim().parse::<i64>() {
                    Ok(v) => v as u64,
                    Err(_) => engine::hash_str(&s) >> 1,
                },
                Err(_) => 1,
            };
            let tier = match std::env::var("VERIF_TIER") {
                Ok(t) if t == "thorough" => "thorough",
                _ => "quick",
            };
            let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
            let ev = format!("{}/evidence/{}.json", root, p.id);
            let o = runner::run(p, tier, seed & 0x7FFF_FFFF_FFFF_FFFF, args.get(3).map(|s| s.as_str()), &ev, &format!("{}/replay", root));
            std::process::exit(if o.error { 3 } else if o.violated { 1 } else { 0 });
        }
        #[cfg(feature = "guided")]
        Some("guided") if args.len() >= 6 => {
            // child process of "run": ID FACET SEED CASES
            let p = all.iter().find(|p| p.id == args[2]).expect("property");
            let f = p.facets.iter().find(|f| f.name == args[3]).expect("facet");
            guided::run(p, f, args[4].parse().expect("seed"), args[5].parse().expect("cases"));
            // a thread may be stuck
            std::process::exit(0);
        }
        Some("replay") if args.len() >= 3 => match runner::replay(&all, &args[2]) {
            Ok(true) => std::process::exit(1),
            Ok(false) => {}
            Err(e) => {
                eprintln!("{}", e);
                std::process::exit(2);
            }
        },
        _ => {
            eprintln!("{}", usage);
            std::process::exit(2);
        }
    }
}
