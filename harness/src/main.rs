mod dict;
mod host;
mod model;
mod runner;
mod state;
mod tape;
mod p_instr;
mod p_hist;
mod p_int;
mod monitor;
mod hist;
mod asm;
mod p_debug;
mod p_host;
mod p_any;
mod p_serde;
mod p_misc;
mod p_flav;
mod p_build;

fn props() -> Vec<runner::Prop> {
    let mut v = Vec::new();
    v.extend(p_instr::props());
    v.extend(p_hist::props());
    v.extend(p_int::props());
    v.extend(p_debug::props());
    v.extend(p_host::props());
    v.extend(p_any::props());
    v.extend(p_serde::props());
    v.extend(p_misc::props());
    v.extend(p_flav::props());
    v.extend(p_build::props());
    v
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let ps = props();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("list") => { for p in &ps { println!("{}", p.id); } 0 }
        Some("literals") => { println!("{}", serde_json::to_string(&dict::scan()).unwrap()); 0 }
        Some("print") => p_debug::print_child(&args[2..]),
        Some("replay") => {
            if std::fs::read_to_string(&args[2]).is_ok_and(|s| s.contains("\"C26\"")) { p_build::prepare().expect("probe"); }
            runner::replay(&ps, &args[2])
        }
        Some(id) => {
            let tier = args.get(2).cloned().or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
            let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier_is(&tier) { 1.0 } else { QUICK_SCALE });
            match ps.iter().find(|p| p.id == id) {
                Some(p) => {
                    if id == "C26" { if let Err(e) = p_build::prepare() { eprintln!("{}", e); std::process::exit(2); } }
                    // a hang is an error of the check, not a verdict
                    std::thread::spawn(move || {
                        std::thread::sleep(std::time::Duration::from_secs(if tier_is(&tier) { 6 * 3600 } else { 840 }));
                        eprintln!("watchdog: time budget exceeded, no verdict");
                        std::process::exit(3);
                    });
                    let tier = args.get(2).cloned().or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
                    runner::run_prop(p, tier_is(&tier), seed, scale)
                }
                None => { eprintln!("unknown property {}", id); 2 }
            }
        }
        None => { eprintln!("usage: harness <ID> [quick|thorough] | replay <file> | list"); 2 }
    };
    std::process::exit(code);
}
/// Multiplies the numbers of cases given as `quick` in the parts.
const QUICK_SCALE: f64 = 3.0;
fn tier_is(t: &str) -> bool { t == "thorough" }
