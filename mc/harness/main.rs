//! Bounded exhaustive exploration of the real async_zip code, one check per property.
mod alloc;
mod dev;
#[macro_use]
mod engine;
mod exec;
mod panel;
mod props;
mod refzip;
mod wops;

use engine::{Ctx, Replay};

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

pub fn level(id: &str) -> &'static str {
    match id {
        "C06" | "C07" => "fault_enumeration",
        _ => "model_checking",
    }
}

fn main() {
    // No property depends on where the machine is: a zone with summer time, unlike that of most sandboxes.
    std::env::set_var("TZ", "AST4ADT,M3.2.0,M11.1.0");
    engine::install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let usage = || -> ! {
        eprintln!("usage: mc <property id> | mc replay <file>");
        std::process::exit(2)
    };
    let (id, filter) = match args.get(1).map(|s| s.as_str()) {
        Some("replay") => {
            let Some(f) = args.get(2) else { usage() };
            let Ok(s) = std::fs::read_to_string(f) else { usage() };
            let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").to_string();
            let choices = get("choices=");
            let choices = if choices.is_empty() { vec![] } else { choices.split(',').map(|c| c.parse().unwrap_or(0)).collect() };
            thorough = get("tier=") == "thorough";
            let r = Replay { space: get("space="), index: get("index=").parse().unwrap_or(0), choices };
            (get("property="), Some(r))
        }
        Some(id) => (id.to_string(), None),
        None => usage(),
    };
    let ctx = Ctx::new(&id, thorough, seed, filter);
    alloc::set_ctx(ctx.clone());
    let code = props::run(&id, &ctx).unwrap_or_else(|| usage());
    std::process::exit(code);
}
