//! Concurrent callers against each caller alone: the same plan is run with all
//! callers interleaved and preempted, and then once per caller in a fresh process
//! that does nothing else; every result must be the same bit for bit.

use crate::gen::*;
use crate::machine::{self, Flags};
use crate::plan::Plan;
use crate::rt::Rng;
use crate::world::*;
use std::collections::{BTreeMap, BTreeSet};

pub fn gen(p: &mut Plan, rng: &mut Rng, deep: bool) {
    if rng.chance(12) {
        crate::pvw::gen(p, rng, deep);
        p.set("mode", 1);
        p.set("workers", rng.range(2, 4));
        p.set("preempt", *rng.pick(&[10, 100, 1000, 3000]));
        return;
    }
    p.set("mode", 0);
    let marathon = rng.below(60) == 0;
    let ntenants = *rng.pick(&[1, 1, 2, 3]);
    let actors = rng.range(2, 5).max(ntenants);
    let cfgs: Vec<Cfg> = (0..ntenants)
        .map(|_| {
            let ns: &[usize] = if marathon { &[8] } else if rng.chance(4) { &[128, 256] } else { &[8, 8, 16, 16, 32, 64] };
            let tb = *rng.pick(&[12, 17, 21, 21, 40]);
            gen_cfg(rng, (1, 4), ns, tb)
        })
        .collect();
    let rate = *rng.pick(&[0, 0, 10]);
    let fail = *rng.pick(&[0, 10, 30]);
    machine_world(p, rng, &cfgs, actors, rate);
    // one key, many callers
    if rng.chance(50) {
        p.set("owners", ntenants);
    }
    p.set("shared", rng.chance(50) as u64);
    p.set("workers", rng.range(2, actors));
    p.set("preempt", *rng.pick(&[10, 100, 300, 1000, 3000, 20000]));
    let w: Vec<(&str, u64)> = vec![
        ("enc", 6),
        ("session", 2),
        ("add", 2),
        ("sub", 2),
        ("addpt", 2),
        ("mulpt", 3),
        ("mulpoly", 1),
        ("mulint", 1),
        ("inner", 2),
        ("mul", 3),
        ("mulrelin", 3),
        ("relin", 2),
        ("gal", 4),
        ("ext", 3),
        ("exth", 1),
        ("unpack", 2),
        ("switch", 3),
        ("ks", 3),
    ];
    let w: Vec<(&str, u64)> = w.into_iter().filter(|x| x.0 == "enc" || !rng.chance(20)).collect();
    // everyone doing the same thing at the same time meets shared state most often
    let same = rng.chance(40);
    let len = if marathon { rng.range(100, 200) } else { rng.range(4, if deep { 24 } else { 12 }) };
    let churn = if rng.chance(30) { *rng.pick(&[10, 30]) } else { 0 };
    for i in 0..len {
        if i > 2 && rng.chance(churn) {
            let a = rng.below(actors);
            renew(p, rng, a, &cfgs[tenant_of(p, a)].clone());
        }
        let kind = if i < 2 { "enc" } else { weighted(rng, &w) };
        for a in 0..actors {
            let kind = if same || i < 2 { kind } else { weighted(rng, &w) };
            let mut args: Vec<u64> = (0..7).map(|_| rng.next() >> 16).collect();
            if kind == "enc" && rng.chance(70) {
                args[0] = 0;
            }
            let id = p.op(a, kind, args);
            gen_entropy_faults(p, rng, id, &cfgs[tenant_of(p, a)], rate, fail);
            if rng.chance(8) {
                let c = rng.below(30);
                p.fault("stall", vec![id, c]);
            }
        }
    }
}

pub fn run(plan: &Plan, cx: &mut Cx) -> Res1<()> {
    let pvw = plan.knob_or("mode", 0) == 1;
    let fl = Flags { dec: true, noise: false, measure: false, raw: true, digests: true };
    if pvw {
        crate::pvw::run(plan, cx)?;
    } else {
        machine::run(plan, cx, fl)?;
    }
    if plan.knob_or("only", 0) != 0 {
        return Ok(());
    }
    let atts: BTreeMap<u64, u64> = cx.digests.iter().filter(|d| d.0 >> 40 == 1).map(|d| (d.0 & ((1 << 40) - 1), d.1)).collect();
    let got: BTreeMap<u64, u64> = cx.digests.iter().filter(|d| d.0 >> 40 == 0).copied().collect();
    let na = plan.knob_or("actors", 1);
    let who = |id: u64| plan.ops.iter().find(|o| o.id == id).map(|o| o.actor % na);
    let groups: BTreeSet<u64> = got.keys().filter_map(|id| if pvw { Some(*id) } else { who(*id).map(|a| a + 1) }).collect();
    for g in groups {
        let mut solo = plan.clone();
        solo.set("only", g);
        solo.set("workers", 1);
        solo.set("preempt", 0);
        // key generation before the callers start is the same in both
        solo.faults.retain(|f| f.kind == "entropy" || (f.kind == "entropy_fail" && f.args[0] >= 1_000_000));
        for (k, v) in &atts {
            solo.set(&format!("att.{k}"), *v);
        }
        let r = crate::driver::child(&solo, false).unwrap_or_else(|e| panic!("harness: {e}"));
        if let Some(v) = r.violation {
            return viol(&v.0, format!("caller {g} alone: {}", v.1));
        }
        let want: BTreeMap<u64, u64> = r.digests.iter().copied().collect();
        let mine: Vec<u64> = got.keys().copied().filter(|id| if pvw { *id == g } else { who(*id) == Some(g - 1) }).collect();
        for id in mine {
            cx.checks += 1;
            cx.count("results_compared_with_solo_run", 1);
            if want.get(&id) != got.get(&id) {
                let op = plan.ops.iter().find(|o| o.id == id).unwrap();
                return viol("differs-from-solo", format!("op {id} ({} by caller {}): result {:016x} among other callers, {} alone", op.kind, op.actor, got[&id], want.get(&id).map(|x| format!("{x:016x}")).unwrap_or("none".into())));
            }
        }
    }
    Ok(())
}
