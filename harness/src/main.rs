mod fw;
mod alloc;
mod cseq;
mod rng;
mod p_dates;
mod nref;
mod p_math;
mod model;
mod p_data;
mod mkt;
mod p_instr;
mod p_mc;
mod p_more;
mod p_risk;
mod jm;
mod p_json;
mod p_facade;

use fw::{crash, run_prop, Prop};

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn props() -> Vec<&'static Prop> {
    let mut v: Vec<&'static Prop> = Vec::new();
    v.extend(p_dates::PROPS.iter());
    v.extend(p_math::PROPS.iter());
    v.extend(p_data::PROPS.iter());
    v.extend(p_instr::PROPS.iter());
    v.extend(p_risk::PROPS.iter());
    v.extend(p_mc::PROPS.iter());
    v.extend(p_more::PROPS.iter());
    v.extend(p_json::PROPS.iter());
    v.extend(p_facade::PROPS.iter());
    v
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 2 { eprintln!("usage: qmv list | qmv <property> | qmv replay <file>"); std::process::exit(2) }
    let mut seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let mut id = args[1].clone();
    let mut replay = None;
    if id == "list" { for p in props() { println!("{}", p.id) } return }
    if id == "case" {
        // one case, run again by the parent
        id = args[2].clone();
        seed = args[4].parse().unwrap();
        replay = Some((args[3].clone(), args[5].parse().unwrap()));
    } else if id == "replay" {
        let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).expect("replay file")).expect("json");
        id = v["property"].as_str().unwrap().to_string();
        seed = v["seed"].as_u64().unwrap();
        replay = Some((v["group"].as_str().unwrap().to_string(), v["index"].as_u64().unwrap()));
    } else if args.len() > 2 { thorough = args[2] == "thorough" }
    let p = match props().into_iter().find(|p| p.id == id) {
        Some(p) => p, None => { eprintln!("unknown property {}", id); std::process::exit(2) } };
    match std::env::var("QMV_CHILD") {
        Ok(page) => { crash::attach(&page); std::process::exit(run_prop(p, thorough, seed, replay)) }
        Err(_) => std::process::exit(crash::supervise(p.id, seed, &args[1..]))
    }
}
