#![allow(dead_code)]
#![allow(unexpected_cfgs)]
mod ctx;
mod logfmt;
mod props;
mod rng;
mod sim;
mod store;
mod val;

#[global_allocator]
static ALLOC: ctx::MonAlloc = ctx::MonAlloc;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let id = a.get(1).cloned().unwrap_or_default();
    let mut only = None;
    let mut i = 2;
    while i < a.len() {
        match a[i].as_str() {
            "--case" => {
                only = a.get(i + 1).and_then(|s| s.parse().ok());
                i += 1;
            }
            x => {
                eprintln!("unknown argument {x}");
                std::process::exit(2);
            }
        }
        i += 1;
    }
    let Some(p) = props::ALL.iter().flat_map(|v| v.iter()).find(|p| p.id == id) else {
        eprintln!("usage: hv <property id> [--case N]");
        std::process::exit(2);
    };
    if ["C14", "C15"].contains(&p.id) {
        std::env::set_var("TZ", props::meta::TEST_TZ);
    }
    // local-time tables are read in a zone away from UTC, without daylight saving
    let zone = match p.id {
        "C03" | "C05" | "C24" => Some("America/Phoenix"),
        "C02" | "C25" | "C26" => Some("Asia/Tokyo"),
        "C01" | "C04" | "C06" | "C08" => Some("Asia/Kolkata"),
        _ => None,
    };
    if let Some(z) = zone {
        std::env::set_var("TZ", z);
    }
    if p.id == "C22" {
        props::loc::c22_env();
    }
    std::process::exit(ctx::run_prop(p, only));
}
