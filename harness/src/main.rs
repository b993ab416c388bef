mod fw;
mod gen;
mod spec;
#[macro_use]
mod sut;
mod p_decode;
mod p_front;
#[macro_use]
mod p_send;
mod p_values;
mod p_robust;
mod p_multi;
mod p_custom;
mod p_iso;

use fw::{Opts, Property, Tier};

fn all() -> Vec<Property> {
    let mut v = vec![];
    v.extend(p_decode::props());
    v.extend(p_front::props());
    v.extend(p_send::props());
    v.extend(p_values::props());
    v.extend(p_robust::props());
    v.extend(p_multi::props());
    v.extend(p_custom::props());
    v.extend(p_iso::props());
    v
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let env = |k: &str, d: &str| std::env::var(k).unwrap_or_else(|_| d.to_string());
    let mut o = Opts {
        tier: if env("VERIF_TIER", "quick") == "thorough" { Tier::Thorough } else { Tier::Quick },
        seed: env("VERIF_SEED", "1").trim().parse().unwrap_or_else(|_| fw::hash_str(&env("VERIF_SEED", "1"))),
        verif: env("VERIF_DIR", "/verif"),
        threads: env("VERIF_THREADS", "0").parse().unwrap_or(0),
        only_workload: None,
        only_case: None,
        scale_pct: env("VERIF_SCALE", "100").parse().unwrap_or(100),
        max_cases: env("VERIF_MAXCASES", "").parse().unwrap_or(u64::MAX),
    };
    if o.threads == 0 {
        o.threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
    }
    let mut id = None;
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--workload" => {
                i += 1;
                o.only_workload = args.get(i).cloned();
            }
            "--case" => {
                i += 1;
                o.only_case = args.get(i).and_then(|s| s.parse().ok());
            }
            s => id = Some(s.to_string()),
        }
        i += 1;
    }
    fw::install_panic_hook();
    let props = all();
    match id.as_deref() {
        None | Some("list") => {
            for p in &props {
                println!("{} {:?}", p.id, p.workloads.iter().map(|w| w.name).collect::<Vec<_>>());
            }
        }
        Some("all") => {
            let mut worst = 0;
            for p in &props {
                worst = worst.max(fw::run_property(p, &o));
            }
            std::process::exit(worst);
        }
        Some(id) => match props.iter().find(|p| p.id == id) {
            Some(p) => std::process::exit(fw::run_property(p, &o)),
            None => {
                println!("INCONCLUSIVE no such property: {id}");
                std::process::exit(2);
            }
        },
    }
}
