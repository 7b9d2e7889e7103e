#![allow(dead_code, function_casts_as_integer)]
mod alloc;
mod attack;
mod core;
mod entropy;
mod gbuf;
#[cfg(harness_jolts)]
mod jolt;
mod kem;
mod mock;
mod p_chan;
mod p_conc;
mod p_codec;
mod p_ct;
mod p_dil;
mod p_forge;
mod p_hash;
mod p_life;
mod p_mem;
mod p_rand;
mod p_rb;
mod p_ref;
mod p_saber;
mod party;
mod refs;
mod sessions;
mod util;
mod vg;

#[global_allocator]
static ALLOC: alloc::Tracking = alloc::Tracking;

use crate::core::{Opts, Plan};
use std::time::Duration;

fn plan(prop: &str, th: bool, variant: &str) -> Option<Plan> {
    Some(match prop {
        "C01" => sessions::c01(th),
        "C02" => sessions::c02(th),
        "C03" => sessions::c03(th),
        "C04" => attack::c04(th),
        "C05" => attack::c05(th),
        "C06" => p_forge::c06(th),
        "C07" => p_forge::c07(th),
        "C08" => p_life::c08(th),
        "C09" => p_life::c09(th),
        "C10" => p_chan::c10(th),
        "C11" => p_chan::c11(th),
        "C12" => p_chan::c12(th),
        "C13" => p_rand::c13(th),
        "C14" => p_ref::c14(th),
        "C15" => p_ref::c15(th),
        "C16" => p_ref::c16(th),
        "C17" => p_saber::c17(th),
        "C18" => p_saber::c18(th),
        "C19" => p_codec::c19(th),
        "C20" => p_dil::c20(th),
        "C21" => p_dil::c21(th),
        "C22" => p_mem::c22(th, variant),
        "C23" => p_conc::c23(th, variant),
        "C24" => p_ct::c24(th, variant),
        "C25" => p_rand::c25(th),
        "C26" => p_hash::c26(th),
        _ => return None,
    })
}

fn field<'a>(t: &'a str, k: &str) -> Option<&'a str> {
    let i = t.find(&format!("\"{}\": ", k))? + k.len() + 4;
    let r = &t[i..];
    if let Some(r) = r.strip_prefix('"') {
        Some(&r[..r.find('"')?])
    } else {
        Some(&r[..r.find([',', '}'])?])
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop = a.get(1).cloned().unwrap_or_default();
    if prop == "--worker-entropy" {
        std::process::exit(p_rand::worker());
    }
    if prop == "--worker-conc" {
        std::process::exit(p_conc::worker());
    }
    let mut seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let mut only = None;
    let mut i = 2;
    while i < a.len() {
        match a[i].as_str() {
            "--replay" => {
                let t = std::fs::read_to_string(&a[i + 1]).expect("replay file");
                seed = field(&t, "seed").unwrap().parse().unwrap();
                thorough = field(&t, "tier") == Some("thorough");
                only = Some((
                    field(&t, "group").unwrap().to_string(),
                    field(&t, "case").unwrap().parse().unwrap(),
                ));
                i += 1;
            }
            "--case" => {
                let (g, n) = a[i + 1].rsplit_once(':').expect("group:index");
                only = Some((g.to_string(), n.parse().unwrap()));
                i += 1;
            }
            x => panic!("unknown argument {}", x),
        }
        i += 1;
    }
    let root = std::env::var("VERIF_ROOT").unwrap_or("/verif".into());
    let env_num = |k: &str| std::env::var(k).ok().and_then(|s| s.parse::<f64>().ok());
    let o = Opts {
        evidence: std::env::var("HARNESS_EVIDENCE").unwrap_or(format!("{}/evidence/{}.json", root, prop)),
        prop: prop.clone(),
        seed,
        thorough,
        threads: env_num("HARNESS_THREADS").map(|x| x as usize).unwrap_or_else(|| {
            std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8)
        }),
        budget: Duration::from_secs_f64(env_num("HARNESS_BUDGET").unwrap_or(if thorough { 600.0 } else { 150.0 })),
        only,
        root,
        variant: std::env::var("HARNESS_VARIANT").unwrap_or("release".into()),
        scale: env_num("HARNESS_SCALE").unwrap_or(1.0),
        shard: std::env::var("HARNESS_SHARD").ok().and_then(|s| {
            let (i, n) = s.split_once('/')?;
            Some((i.parse().ok()?, n.parse().ok()?))
        }),
        tag: std::env::var("HARNESS_TAG").map(|t| t + "-").unwrap_or_default(),
    };
    let Some(p) = plan(&prop, thorough, &o.variant) else {
        eprintln!("no check for property {}", prop);
        std::process::exit(2);
    };
    std::process::exit(core::run(p, &o));
}
