//! Plan generation: one integer decides the whole run.

use crate::plan::Plan;
use crate::rt::{mix2, Rng};
use crate::world::*;

/// The property's own number, so that two properties never share a plan.
pub fn prop_no(p: &str) -> u64 {
    p[1..].parse::<u64>().unwrap() + if p.starts_with('N') { 100 } else { 0 }
}

pub fn weighted<'a>(rng: &mut Rng, w: &[(&'a str, u64)]) -> &'a str {
    let tot: u64 = w.iter().map(|x| x.1).sum();
    let mut r = rng.below(tot);
    for (k, x) in w {
        if r < *x {
            return k;
        }
        r -= x;
    }
    unreachable!()
}

pub fn schedule_knobs(p: &mut Plan, rng: &mut Rng, actors: u64) {
    let w = rng.range(1, actors.max(1));
    p.set("workers", w.min(6));
    p.set("preempt", if w > 1 { *rng.pick(&[0, 10, 100, 1000, 3000]) } else { 0 });
    p.set("sched", rng.next() >> 1);
    p.set("entropy", rng.next() >> 1);
    p.set("clock", rng.chance(40) as u64);
}

pub fn degrees(rng: &mut Rng) -> Vec<usize> {
    match rng.below(20) {
        0 => vec![128, 256],
        1 => vec![512, 1024],
        2..=4 => vec![64],
        _ => vec![8, 8, 16, 16, 32, 64],
    }
}

pub fn plan(prop: &str, seed: u64, tier: &str) -> Plan {
    let mut rng = Rng::new(mix2(seed, prop_no(prop)));
    let mut p = Plan { prop: prop.to_string(), seed, profile: String::new(), ..Default::default() };
    p.profile = if rng.chance(50) { "checked" } else { "release" }.into();
    let deep = tier == "thorough";
    match prop {
        "C03" | "C04" | "C05" | "C06" | "C07" | "C08" | "C14" | "C16" => machine(&mut p, &mut rng, prop, deep),
        "C13" => crate::conc::gen(&mut p, &mut rng, deep),
        "C01" | "C02" => crate::pir::gen(&mut p, &mut rng, prop, deep),
        "C09" => crate::fresh::gen_fresh(&mut p, &mut rng, deep),
        "C10" => crate::fresh::gen_pairs(&mut p, &mut rng, deep),
        "C11" => crate::pvw::gen(&mut p, &mut rng, deep),
        "C12" => crate::sampler::gen(&mut p, &mut rng, deep),
        "C15" => crate::refuse::gen(&mut p, &mut rng, deep),
        "C17" => crate::params::gen(&mut p, &mut rng, deep),
        _ => panic!("unknown property {prop}"),
    }
    // callers that can be preempted: often at every basic block of the crate
    let rate = match prop {
        "C13" => 60,
        "C02" => 40,
        "C12" | "C10" | "C09" => 10,
        _ => 20,
    };
    if p.knob_or("workers", 1) > 1 && p.knob_or("preempt", 0) > 0 && p.knob_or("p0.n", 8) <= 64 && rng.chance(rate) {
        p.profile = "stepped".into();
    }
    p
}

pub fn owner_keys(p: &mut Plan, rng: &mut Rng, o: u64, cfg: &Cfg, rate: u64) {
    let kind = if rng.chance(70) { 0 } else { rng.range(1, 4) };
    p.set(&format!("o{o}.sk"), kind);
    if kind == 0 {
        gen_entropy_faults(p, rng, 1_000_000 + o, cfg, rate, rate / 4);
    }
}

pub fn machine_world(p: &mut Plan, rng: &mut Rng, cfgs: &[Cfg], actors: u64, rate: u64) {
    let owners = rng.range(1, actors).max(cfgs.len() as u64).min(actors);
    p.set("tenants", cfgs.len() as u64);
    p.set("owners", owners);
    p.set("actors", actors);
    for (i, c) in cfgs.iter().enumerate() {
        c.put(p, i);
    }
    for o in 0..owners {
        owner_keys(p, rng, o, &cfgs[o as usize % cfgs.len()], rate);
    }
    schedule_knobs(p, rng, actors);
}

/// Which tenant an actor belongs to.
pub fn tenant_of(p: &Plan, actor: u64) -> usize {
    let o = actor % p.knob("owners");
    (o % p.knob("tenants")) as usize
}

/// A caller that starts over: new parameters at a fresh index, a new key, two encryptions.
pub fn renew(p: &mut Plan, rng: &mut Rng, actor: u64, like: &Cfg) {
    let idx = 1000 + p.ops.len();
    let mut c = vary(rng, like);
    if like.n >= 128 {
        c = like.clone();
    }
    c.put(p, idx);
    p.op(actor, "renew", vec![idx as u64]);
    for _ in 0..2 {
        let mut args: Vec<u64> = (0..7).map(|_| rng.next() >> 16).collect();
        args[0] = 0;
        p.op(actor, "enc", args);
    }
}

fn machine(p: &mut Plan, rng: &mut Rng, prop: &str, deep: bool) {
    let big = rng.below(if deep { 20 } else { 40 }) == 0;
    // degrees as deployed, and histories much longer than the others
    let heavy = matches!(prop, "C03" | "C07");
    let huge = !big && rng.below(if heavy { 150 } else { 800 }) == 0;
    let marathon = !big && !huge && rng.below(60) == 0;
    let ntenants = if huge || rng.chance(60) { 1 } else { 2 };
    let cfgs: Vec<Cfg> = (0..ntenants)
        .map(|_| {
            let ns = if huge {
                if heavy {
                    vec![512, 512, 1024]
                } else if prop == "C16" {
                    vec![2048, 4096]
                } else {
                    vec![4096, 8192]
                }
            } else if marathon {
                vec![8]
            } else if heavy {
                if big {
                    vec![128, 256]
                } else {
                    vec![8, 8, 16, 16, 32, 64]
                }
            } else if big {
                vec![512, 1024, 2048]
            } else {
                degrees(rng)
            };
            let ks = match prop {
                "C03" => (2, 5),
                "C04" => (1, 6),
                "C07" => (2, 5),
                "C14" => (2, 6),
                "C06" => (2, 5),
                _ => (1, 6),
            };
            let ks = if huge { (ks.0, ks.1.min(3)) } else if ns[0] >= 128 { (ks.0, ks.1.min(4)) } else { ks };
            let tb = *rng.pick(&[12, 17, 21, 21, 40, 58]);
            gen_cfg(rng, ks, &ns, tb)
        })
        .collect();
    let actors = if huge { 1 } else { rng.range(1, 4).max(ntenants) };
    let rate = *rng.pick(&[0, 0, 20, 60, 100]);
    let fail = *rng.pick(&[0, 0, 10, 40]);
    machine_world(p, rng, &cfgs, actors, rate);
    let w: Vec<(&str, u64)> = match prop {
        "C03" => vec![("enc", 4), ("unpack", 6), ("unpackg", 5), ("add", 1), ("mulpt", 1), ("gal", 1)],
        "C04" => vec![("enc", 10), ("perturb", 6)],
        "C05" => vec![
            ("enc", 4),
            ("add", 4),
            ("sub", 4),
            ("addpt", 4),
            ("mulpt", 4),
            ("mulpoly", 3),
            ("mulint", 3),
            ("inner", 3),
            ("mul", 5),
            ("mulrelin", 4),
            ("relin", 3),
            ("perturb", 1),
            ("switch", 1),
        ],
        "C06" => vec![("enc", 4), ("gal", 14), ("add", 2), ("sub", 1), ("mulpt", 2), ("addpt", 1), ("switch", 2)],
        "C07" => vec![("enc", 4), ("ext", 6), ("extneg", 4), ("extx", 3), ("exth", 3), ("add", 2), ("switch", 2), ("mulint", 1)],
        "C08" => vec![
            ("enc", 5),
            ("add", 3),
            ("sub", 2),
            ("addpt", 2),
            ("mulpt", 3),
            ("mulpoly", 2),
            ("mulint", 2),
            ("inner", 2),
            ("mul", 4),
            ("mulrelin", 3),
            ("relin", 2),
            ("gal", 3),
            ("ext", 3),
            ("switch", 3),
            ("perturb", 2),
            ("ks", 2),
        ],
        "C14" => vec![
            ("enc", 5),
            ("switch", 10),
            ("add", 3),
            ("sub", 2),
            ("addpt", 2),
            ("mulpt", 2),
            ("mul", 2),
            ("mulrelin", 2),
            ("gal", 2),
            ("ext", 1),
            ("perturb", 2),
        ],
        "C16" => vec![("enc", 3), ("ks", 10), ("mul", 3), ("relin", 4), ("mulrelin", 2), ("switch", 1)],
        _ => unreachable!(),
    };
    // swarm: drop some kinds of operations in this run
    let w: Vec<(&str, u64)> = w.into_iter().filter(|x| x.0 == "enc" || x.0 == "ks" || x.0 == "unpackg" || !rng.chance(15)).collect();
    let len = if marathon { rng.range(150, if heavy { 200 } else { 400 }) } else if huge {
        rng.range(3, 6)
    } else if cfgs[0].n >= 128 { rng.range(4, 10) } else { rng.range(6, if deep { 60 } else { 30 }) };
    let base: Vec<u64> = (0..actors).map(|_| if rng.chance(50) { 0 } else { rng.below(6) }).collect();
    let simd: Vec<u64> = (0..actors).map(|_| if prop == "C06" { *rng.pick(&[30, 90]) } else { *rng.pick(&[0, 20, 60]) }).collect();
    let churn = if rng.chance(30) { *rng.pick(&[5, 15]) } else { 0 };
    for i in 0..len * actors {
        if i > 3 * actors && rng.chance(churn) {
            let a = rng.below(actors);
            renew(p, rng, a, &cfgs[tenant_of(p, a)].clone());
        }
        let a = if i < 2 * actors { i % actors } else { rng.below(actors) };
        let kind = if i < 2 * actors && prop != "C16" { "enc" } else { weighted(rng, &w) };
        let mut args: Vec<u64> = (0..7).map(|_| rng.next() >> 16).collect();
        if kind == "enc" {
            args[0] = if heavy && rng.chance(80) {
                0
            } else if rng.chance(75) {
                base[a as usize]
            } else {
                rng.below(6)
            };
            args[1] = rng.chance(simd[a as usize]) as u64;
        }
        let id = p.op(a, kind, args);
        gen_entropy_faults(p, rng, id, &cfgs[tenant_of(p, a)], rate, fail);
        if p.knob("preempt") > 0 && rng.chance(4) {
            let c = rng.below(20);
            p.fault("stall", vec![id, c]);
        }
    }
}
