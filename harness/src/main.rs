//! gptverify: property-based checks of the gpt crate.
//!   gptverify check <ID> [quick|thorough]
//!   gptverify replay <file>

#[macro_use]
mod macros {
    #[macro_export]
    macro_rules! ensure {
        ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
    }
}

mod alloc;
mod dev;
mod dict;
mod gen;
mod hist;
mod known_types;
mod other;
mod props;
mod refgpt;
mod runner;

use runner::Ctx;

fn main() {
    runner::install_hook();
    runner::start_watchdog();
    let args: Vec<String> = std::env::args().collect();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") if args.len() >= 3 => {
            let tier = args
                .get(3)
                .cloned()
                .or_else(|| std::env::var("VERIF_TIER").ok())
                .unwrap_or_else(|| "quick".into());
            let ctx = Ctx::new(&args[2], seed, tier == "thorough", None);
            if !props::dispatch(&args[2], &ctx) {
                eprintln!("unknown property {}", args[2]);
                std::process::exit(2);
            }
            ctx.finish()
        }
        Some("replay") if args.len() == 3 => {
            let text = std::fs::read_to_string(&args[2]).expect("cannot read the replay file");
            let v: serde_json::Value = serde_json::from_str(&text).expect("replay file is not JSON");
            let id = v["property"].as_str().unwrap().to_string();
            let ctx = Ctx::new(
                &id,
                v["seed"].as_u64().unwrap_or(seed),
                false,
                Some((v["sub"].as_str().unwrap().to_string(), v["case"].clone())),
            );
            props::dispatch(&id, &ctx);
            ctx.finish()
        }
        Some("serve") => props::logging::serve(args.get(2).is_some_and(|s| s == "quiet")),
        _ => {
            eprintln!("usage: gptverify check <ID> [quick|thorough] | replay <file>");
            2
        }
    };
    std::process::exit(code);
}
