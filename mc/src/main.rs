//! egomc: bounded exhaustive exploration of egobox. `egomc <property> [--tier t] [--only case-key]`
mod cx;
mod fsmon;
mod mock;
mod props;
mod refgp;
mod rngmc;
mod sched;
mod util;

use cx::*;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut id = None;
    let mut tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let mut seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut only = None;
    let mut i = 0;
    while i < args.len() {
        match args[i].as_str() {
            "--tier" => {
                i += 1;
                tier = if args[i] == "thorough" { Tier::Thorough } else { Tier::Quick };
            }
            "--only" => {
                i += 1;
                only = Some(args[i].clone());
            }
            "--replay" => {
                i += 1;
                let j: serde_json::Value =
                    serde_json::from_str(&std::fs::read_to_string(&args[i]).expect("replay file")).expect("json");
                id = Some(j["property"].as_str().unwrap().to_string());
                only = Some(j["case"].as_str().unwrap().to_string());
                seed = j["seed"].as_u64().unwrap_or(1);
                tier = if j["tier"] == "thorough" { Tier::Thorough } else { Tier::Quick };
            }
            a => id = Some(a.to_string()),
        }
        i += 1;
    }
    if let Some(i) = args.iter().position(|a| a == "--fingerprint") {
        install_panic_hook();
        unsafe { std::env::set_var("EGOBOX_LOG", "off") };
        print!("{}", props::det::fingerprint(&args[i + 1..]));
        return;
    }
    let Some(id) = id else {
        eprintln!("usage: egomc <property>");
        std::process::exit(2)
    };
    let root = std::env::var("MC_ROOT").unwrap_or("/verif".into());
    install_panic_hook();
    // the optimizer logs to the standard output otherwise
    unsafe { std::env::set_var("EGOBOX_LOG", "off") };
    let mut cx = Cx::new(&id, tier, seed, only, root.into());
    if !props::run(&mut cx) {
        eprintln!("unknown property {id}");
        std::process::exit(2);
    }
    let code = cx.finish();
    std::process::exit(code);
}
