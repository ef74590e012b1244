mod engine;
mod gen;
mod model;
mod p_draw;
mod p_events;
mod p_fit;
mod p_flaky;
mod p_input;
mod p_list;
mod p_plain;
mod p_print;
mod p_style;
mod p_table;
mod p_text;
mod p_views;
mod plain;
mod supervise;
mod term;
mod worker;

use engine::*;

fn properties() -> Vec<Property> {
    let mut v = Vec::new();
    v.extend(p_text::properties());
    v.extend(p_fit::properties());
    v.extend(p_views::properties());
    v.extend(p_input::properties());
    v.extend(p_list::properties());
    v.extend(p_style::properties());
    v.extend(p_print::properties());
    v.extend(p_events::properties());
    v.extend(p_draw::properties());
    v.extend(p_flaky::properties());
    v.extend(p_plain::properties());
    v
}

fn main() {
    std::env::remove_var("NO_COLOR");
    termimad::crossterm::style::force_color_output(true);
    let args: Vec<String> = std::env::args().collect();
    install_panic_hook();
    let props = properties();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in &props {
                println!("{}", p.id);
            }
            0
        }
        Some("run") => supervise::run(args.get(2).map(|s| s.as_str()).unwrap_or("")),
        Some("run-inner") => {
            let id = args.get(2).cloned().unwrap_or_default();
            let tier = match std::env::var("VERIF_TIER").as_deref() {
                Ok("thorough") => Tier::Thorough,
                _ => Tier::Quick,
            };
            let seed = std::env::var("VERIF_SEED")
                .ok()
                .and_then(|s| s.trim().parse::<u64>().ok())
                .unwrap_or(1);
            let limit = match tier {
                Tier::Quick => 780,
                Tier::Thorough => 6 * 3600,
            };
            supervise::watch(limit);
            match props.iter().find(|p| p.id == id) {
                Some(p) => run_property(p, seed, tier),
                None => {
                    eprintln!("ERROR unknown property {id}");
                    2
                }
            }
        }
        Some("worker") => worker::serve(),
        Some("replay") => {
            supervise::watch(600);
            replay(&props, args.get(2).map(|s| s.as_str()).unwrap_or(""))
        }
        _ => {
            eprintln!("usage: vp list | run <ID> | replay <file>");
            2
        }
    };
    std::process::exit(code);
}
