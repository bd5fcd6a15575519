mod alloc;
mod engine;
mod faults;
mod fmt;
mod gen;
mod hop;
mod inter;
mod io;
mod memory;
mod merges;
mod model;
mod readers;
mod writers;

use engine::{Check, Opts};

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn check(prop: &str, deep: bool) -> Option<Check> {
    Some(match prop {
        "C11" => faults::c11(deep),
        "C12" => faults::c12(deep),
        "C06" => merges::c06(deep),
        "C07" => merges::c07(deep),
        "C08" => merges::c08(deep),
        "C02" => readers::c02(deep),
        "C03" => readers::c03(deep),
        "C04" => readers::c04(deep),
        "C05" => readers::c05(deep),
        "C10" => readers::c10(deep),
        "C16" => readers::c16(deep),
        "C01" => writers::c01(deep),
        "C09" => writers::c09(deep),
        "C13" => writers::c13(deep),
        "C14" => writers::c14(deep),
        "C15" => writers::c15(deep),
        "C17" => memory::c17(deep),
        "C18" => writers::c18(deep),
        _ => return None,
    })
}

fn field(j: &str, k: &str) -> Option<String> {
    let i = j.find(&format!("\"{k}\":"))? + k.len() + 3;
    let r = &j[i..];
    Some(if let Some(r) = r.strip_prefix('"') {
        r[..r.find('"')?].to_string()
    } else {
        r.chars().take_while(|c| c.is_ascii_digit()).collect()
    })
}

fn main() {
    let mut args: Vec<String> = std::env::args().skip(1).collect();
    let env = |k: &str| std::env::var(k).ok();
    let num = |k: &str, d: u64| env(k).and_then(|v| v.parse().ok()).unwrap_or(d);
    let root = std::path::PathBuf::from(env("MC_ROOT").unwrap_or_else(|| "/verif".into()));
    let mut tier = env("VERIF_TIER").unwrap_or_else(|| "quick".into());
    let mut only: Option<(Option<String>, u64, u64)> = None;
    if args.first().map(|s| s == "--replay").unwrap_or(false) {
        let j = std::fs::read_to_string(&args[1]).expect("replay file");
        tier = field(&j, "tier").expect("tier");
        only = Some((field(&j, "family"), 0, field(&j, "case").unwrap().parse().unwrap()));
        args = vec![field(&j, "property").expect("property")];
    }
    if let Some(o) = env("MC_ONLY") {
        let (a, b) = o.split_once(':').unwrap();
        only = Some((None, a.parse().unwrap(), b.parse().unwrap()));
    }
    let prop = args.first().cloned().unwrap_or_default();
    let deep = tier == "thorough";
    let opts = Opts {
        tier: tier.clone(),
        seed: num("VERIF_SEED", 1),
        root,
        budget_s: num("MC_BUDGET_S", if deep { 5400 } else { 420 }),
        threads: num("MC_THREADS", std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(8)) as usize,
        mem_limit: num("MC_MEM_GB", 20) as i64 * (1 << 30),
    };
    let Some(mut c) = check(&prop, deep) else {
        eprintln!("unknown property {prop}");
        std::process::exit(2);
    };
    if env("MC_CHILD").is_none() {
        let mut a = std::env::args().skip(1).collect::<Vec<_>>();
        if a.is_empty() {
            a.push(prop.clone());
        }
        std::process::exit(engine::supervise(&prop, &opts, &a));
    }
    // For development: only the named families.
    if let Some(names) = env("MC_FAMILY") {
        c.families.retain(|f| names.split(',').any(|n| n == f.name));
    }
    let only = only.map(|(name, f, case)| match name {
        Some(n) if n.starts_with('#') => (n[1..].parse().unwrap(), case),
        Some(n) => (c.families.iter().position(|f| f.name == n).expect("family"), case),
        None => (f as usize, case),
    });
    std::process::exit(engine::run(c, &opts, only));
}
