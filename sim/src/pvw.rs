//! PVW clues: several recipients publish keys, several senders make clues.

use crate::gen::*;
use crate::plan::Plan;
use crate::refm::*;
use crate::rt::{fnv, mix2, Rng};
use crate::world::*;
use onion_pir::sim_api::{PvwCiphertext, PvwParams, PvwPk, PvwSk};
use std::sync::Arc;

const QS: &[u64] = &[97, 193, 257, 769, 7681, 12289, 40961, 65537, 65537, 786433, 1785857, 4294967291, 1152921504606846883];

pub fn prm(p: &Plan) -> PvwParams {
    if p.knob_or("p0.dflt", 0) == 1 {
        return PvwParams::default();
    }
    PvwParams {
        n: p.knob("p0.n") as usize,
        ell: p.knob("p0.ell") as usize,
        m: p.knob("p0.m") as usize,
        q: p.knob("p0.q"),
        variance: p.knob("p0.v") as usize,
    }
}

/// PVW draws its masks straight from the entropy source, so faults are bounded bursts.
fn faults(p: &mut Plan, rng: &mut Rng, id: u64, v: u64, rate: u64, fail: u64) {
    for _ in 0..2 {
        if rng.chance(rate) {
            let start = *rng.pick(&[0, 8, 64, 8 * rng.clone().below(400)]);
            let len = *rng.pick(&[8, 64, 512, 4096, 65536]);
            let pat = if rng.chance(40) { 100 + v + 100 * rng.below(3) } else { rng.below(5) };
            p.fault("entropy", vec![id, start, len, pat]);
        }
    }
    if rng.chance(fail) {
        let at = rng.below(2000);
        p.fault("entropy_fail", vec![id, at]);
    }
}

/// ops: (recipient, "pvwkeys"), (sender, "clue", recipient, value kind, value seed)
pub fn gen(p: &mut Plan, rng: &mut Rng, deep: bool) {
    let dflt = rng.below(if deep { 60 } else { 150 }) == 0;
    let recipients = if dflt { 1 } else { rng.range(1, 4) };
    p.set("recipients", recipients);
    p.set("p0.dflt", dflt as u64);
    let v = rng.range(1, 16);
    p.set("p0.v", v);
    p.set("p0.n", if rng.chance(15) { rng.range(1, 130) } else { *rng.pick(&[1, 2, 3, 8, 16, 24, 40]) });
    // clues as short as one bit, sometimes longer than any machine word
    p.set("p0.ell", if rng.chance(15) { rng.range(1, 140) } else { *rng.pick(&[1, 2, 4, 4, 5, 9]) });
    loop {
        // primes mostly; the scheme works for any modulus
        let q = if rng.chance(75) { *rng.pick(QS) } else { let b = rng.range(6, 61); (1u64 << b) + rng.below(1 << b) };
        let top = *rng.pick(&[4, 30, 120, 400]);
        let m = rng.range(1, top);
        // worst case: every error at its bound and selected
        if m * 2 * v + 4 < q / 4 {
            p.set("p0.q", q);
            // as close to the limit as the modulus allows, sometimes
            let lim = (q / 4 - 4) / (2 * v);
            p.set("p0.m", if rng.chance(25) && lim < 800 { lim - (m * 2 * v + 4 >= q / 4) as u64 } else { m });
            break;
        }
    }
    while p.knob("p0.m") * 2 * v + 4 >= p.knob("p0.q") / 4 {
        let m = p.knob("p0.m") - 1;
        p.set("p0.m", m);
    }
    if p.knob("p0.m") == 0 {
        p.set("p0.m", 1);
        p.set("p0.q", 65537);
    }
    schedule_knobs(p, rng, 4);
    let rate = if dflt { 0 } else { *rng.pick(&[0, 30, 60, 100]) };
    let fail = *rng.pick(&[0, 0, 15]);
    // the worst case: extreme errors in the whole key, every row selected
    let worst = !dflt && rng.chance(25);
    let mode = rng.below(3);
    for r in 0..recipients {
        let id = p.op(r, "pvwkeys", vec![]);
        if worst {
            let at = 8 * p.knob("p0.n") * (p.knob("p0.ell") + p.knob("p0.m"));
            p.fault("entropy", vec![id, at, 1 << 20, 100 + v + 100 * mode]);
        } else {
            faults(p, rng, id, v, rate, fail);
        }
    }
    for _ in 0..rng.range(2, if dflt { 3 } else if deep { 30 } else { 12 }) {
        let (s, r) = (rng.below(4), rng.below(recipients));
        let id = p.op(s, "clue", vec![r, rng.below(6), rng.next() >> 16]);
        if worst {
            p.fault("entropy", vec![id, 0, 1 << 20, if rng.chance(60) { 1 } else { 0 }]);
        }
        faults(p, rng, id, v, rate, fail);
        if p.knob("preempt") > 0 && rng.chance(8) {
            p.fault("stall", vec![id, rng.below(20)]);
        }
    }
}

pub fn bits(kind: u64, seed: u64, ell: usize) -> Vec<u64> {
    let mut g = Rng::new(seed);
    (0..ell)
        .map(|i| match kind {
            0 => 0,
            1 => 1,
            2 => i as u64 % 2,
            3 => (i + 1 == ell) as u64,
            _ => g.below(2),
        })
        .collect()
}

pub struct Keys {
    pub sk: PvwSk,
    pub pk: PvwPk,
}

pub fn dig_clue(c: &PvwCiphertext) -> u64 {
    fnv(dig_vec(&c.a), dig_vec(&c.b))
}

/// Error of each public key row, centred.
pub fn pk_errors(par: &PvwParams, k: &Keys) -> Res1<Vec<Vec<i64>>> {
    let rows = k.pk.sim_rows();
    if rows.len() != par.m {
        return viol("pk-shape", format!("public key has {} rows where {} are due", rows.len(), par.m));
    }
    let sk = k.sk.sim_rows();
    if sk.len() != par.ell || sk.iter().any(|r| r.len() != par.n || r.iter().any(|x| *x >= par.q)) {
        return viol("sk-shape", "secret key has the wrong shape or unreduced entries".into());
    }
    let mut out = vec![];
    for (i, r) in rows.iter().enumerate() {
        if r.a.len() != par.n || r.b.len() != par.ell || r.a.iter().chain(r.b.iter()).any(|x| *x >= par.q) {
            return viol("pk-shape", format!("public key row {i} has the wrong shape or unreduced entries"));
        }
        out.push(
            (0..par.ell)
                .map(|l| {
                    let dot = sk[l].iter().zip(&r.a).fold(0u64, |s, (x, y)| ((s as u128 + mulmod(*x, *y, par.q) as u128) % par.q as u128) as u64);
                    let d = (r.b[l] as u128 + par.q as u128 - dot as u128) % par.q as u128;
                    if d > par.q as u128 / 2 {
                        -((par.q as u128 - d) as i64)
                    } else {
                        d as i64
                    }
                })
                .collect(),
        );
    }
    Ok(out)
}

pub fn run(plan: &Plan, cx: &mut Cx) -> Res1<()> {
    let par = Arc::new(prm(plan));
    let only = plan.knob_or("only", 0);
    let keyops: Vec<_> = plan.ops.iter().filter(|o| o.kind == "pvwkeys").cloned().collect();
    let jobs: Vec<(u64, JobFn<Keys>)> = keyops
        .iter()
        .filter(|o| only == 0 || plan.ops.iter().any(|c| c.kind == "clue" && c.id == only && c.args[0] == o.actor) || o.id == only)
        .map(|o| {
            let par = par.clone();
            let f: JobFn<Keys> = Arc::new(move || {
                let sk = PvwSk::gen_sk(&par);
                let pk = sk.gen_pk(&par);
                Keys { sk, pk }
            });
            (o.id, f)
        })
        .collect();
    let ids: Vec<u64> = jobs.iter().map(|j| j.0).collect();
    let res = run_jobs(plan, cx, 11, jobs, false)?;
    let mut keys: std::collections::BTreeMap<u64, Arc<Keys>> = Default::default();
    for (id, (o, _, att)) in ids.iter().zip(res) {
        let op = keyops.iter().find(|x| x.id == *id).unwrap();
        let k = must(o, &format!("op {id} (PVW key generation)"))?;
        let errs = pk_errors(&par, &k)?;
        let lim = 2 * par.variance as i64;
        for (i, e) in errs.iter().enumerate() {
            if let Some(x) = e.iter().find(|x| x.abs() > lim) {
                return viol("pk-error", format!("op {id}: public key row {i} is off secret key times mask by {x}, the error bound is {lim}"));
            }
        }
        cx.checks += 1;
        cx.count("op_pvwkeys", 1);
        if errs.iter().flatten().any(|e| e.abs() == lim) {
            cx.count("probe_error_at_its_bound", 1);
        }
        let d = k.pk.sim_rows().iter().fold(3, |h, r| fnv(h, dig_clue(r)));
        let d = k.sk.sim_rows().iter().fold(d, |h, r| fnv(h, dig_vec(r)));
        cx.digests.push((*id, d));
        if att > 0 {
            cx.digests.push((1 << 40 | id, att));
        }
        cx.ev(format!("op {id}: recipient {} has keys {d:016x}", op.actor));
        keys.insert(op.actor, Arc::new(k));
    }
    let clues: Vec<_> = plan.ops.iter().filter(|o| o.kind == "clue" && keys.contains_key(&o.args[0]) && (only == 0 || only == o.id)).cloned().collect();
    let jobs: Vec<(u64, JobFn<(PvwCiphertext, Vec<u64>)>)> = clues
        .iter()
        .map(|o| {
            let (par, k) = (par.clone(), keys[&o.args[0]].clone());
            let m = bits(o.args[1], o.args[2], par.ell);
            let f: JobFn<(PvwCiphertext, Vec<u64>)> = Arc::new(move || {
                let c = k.pk.encrypt(&par, m.clone());
                let d = k.sk.decrypt(&par, &c);
                (c, d)
            });
            (o.id, f)
        })
        .collect();
    let res = run_jobs(plan, cx, 12, jobs, false)?;
    for (op, (o, _, att)) in clues.iter().zip(res) {
        let what = format!("op {} (clue by sender {} for recipient {})", op.id, op.actor, op.args[0]);
        let (c, d) = must(o, &what)?;
        cx.checks += 1;
        cx.count("op_clue", 1);
        let m = bits(op.args[1], op.args[2], par.ell);
        if d != m {
            return viol("clue", format!("{what} decrypts to {d:?} where {m:?} was sent"));
        }
        if c.a.len() != par.n || c.b.len() != par.ell || c.a.iter().chain(c.b.iter()).any(|x| *x >= par.q) {
            return viol("clue-shape", format!("{what} has the wrong shape or unreduced entries"));
        }
        let sk = keys[&op.args[0]].sk.sim_rows();
        for l in 0..par.ell {
            let dot = sk[l].iter().zip(&c.a).fold(0u64, |s, (x, y)| ((s as u128 + mulmod(*x, *y, par.q) as u128) % par.q as u128) as u64);
            let d = (c.b[l] as u128 + 2 * par.q as u128 - dot as u128 - (m[l] * (par.q / 2)) as u128) % par.q as u128;
            let d = d.min(par.q as u128 - d) as u64;
            if d > 2 * par.variance as u64 * par.m as u64 {
                return viol("clue-error", format!("{what}: bit {l} carries an error of {d}, the worst case is {}", 2 * par.variance * par.m));
            }
            if d * 10 > 9 * 2 * (par.variance * par.m) as u64 {
                cx.count("probe_clue_error_near_worst_case", 1);
            }
        }
        cx.digests.push((op.id, dig_clue(&c)));
        if att > 0 {
            cx.digests.push((1 << 40 | op.id, att));
        }
        cx.ev(format!("{what}: digest {:016x}", dig_clue(&c)));
    }
    let _ = mix2;
    Ok(())
}
