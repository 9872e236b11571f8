//! Distribution of secrets, errors and masks: bounds under every entropy stream,
//! shape under a uniform one.

use crate::gen::*;
use crate::machine::Owner;
use crate::plan::{Op, Plan};
use crate::pvw::{pk_errors, Keys};
use crate::refm::*;
use crate::rt::Rng;
use crate::world::*;
use onion_pir::sim_api::{BitDecomposition, Poly, PvwParams, PvwSk, Representation, RqContext, SecretKey};
use std::sync::Arc;

pub fn gen(p: &mut Plan, rng: &mut Rng, deep: bool) {
    let ns: &[usize] = if deep { &[8, 16, 32, 64, 128, 256, 512, 1024, 4096] } else { &[8, 16, 32, 64, 128, 256, 512] };
    let mut cfg = gen_cfg(rng, (1, 3), ns, 21);
    cfg.v = rng.range(1, 16) as usize;
    cfg.dflt = false;
    cfg.put(p, 0);
    schedule_knobs(p, rng, 3);
    if rng.chance(60) {
        p.set("workers", 1);
        p.set("preempt", 0);
    }
    let scale = if deep { 2 } else { 1 };
    // under a uniform source: kind, number of samples
    match rng.below(3) {
        0 => {
            let s = scale << *rng.pick(&[16, 17]);
            p.op(0, "secret", vec![s]);
        }
        1 => {
            let s = (scale << 13).min(scale * (1 << 21) / cfg.n as u64);
            p.op(0, "error", vec![s]);
        }
        _ => {
            // any vector length, not only powers of two
            let m = *rng.pick(&[1, 3, 7, 13, 31, 33, 63, 65, 100, 129, 255, 1000]);
            let (q, n, ell) = (*rng.pick(&[257, 65537, 786433, 4294967291, 1152921504606846883]), rng.range(1, 4), rng.range(1, 5));
            p.op(0, "pvw", vec![m, n, ell, q, scale << 15]);
        }
    }
    if rng.chance(40) {
        p.op(1, "mask", vec![scale << 12]);
    }
    if rng.chance(50) {
        // moduli small enough to see every residue
        p.op(1, "tiny", vec![rng.below(3), *rng.pick(&[17, 97, 113, 193, 241, 257, 337]), rng.next() >> 8, scale << 14]);
    }
    if rng.chance(25) {
        // moduli for which reducing or scaling a machine word would show: between a multiple and the next
        let top = *rng.pick(&[3353953467947191203u64, 2837960626724546402, 4099276460824344804, 3221225472, 2952790016, 6442450944, 5404319552844595, 27021597764222976]);
        p.op(1, "wide", vec![rng.below(3), top - (rng.next() >> 40), rng.next() >> 8, scale << 16]);
    }
    p.op(1, "seed", vec![rng.next() >> 8, rng.below(3)]);
    // under broken sources: bounds only
    for _ in 0..rng.range(2, 8) {
        let kind = *rng.pick(&["rsecret", "rerror", "rpvw"]);
        let args = if kind == "rpvw" {
            vec![rng.range(1, 70), rng.range(1, 4), rng.range(1, 4), *rng.pick(&[257, 65537, 1152921504606846883])]
        } else {
            vec![]
        };
        let id = p.op(2, kind, args);
        if kind == "rpvw" {
            let f = rng.below(400);
            p.fault("entropy", vec![id, f, *rng.pick(&[64, 4096, 65536]), if rng.chance(50) { 100 + cfg.v as u64 + 100 * rng.below(3) } else { rng.below(5) }]);
        } else {
            gen_entropy_faults(p, rng, id, &cfg, 100, 10);
        }
    }
}

enum Out {
    Small(Vec<Vec<i64>>),
    Uniform(u64, Vec<u64>),
    Both(Vec<Vec<i64>>, u64, Vec<u64>),
    Seed(Option<String>),
}

fn small_error(ring: &RefRing, phase: &Res) -> Result<Vec<i64>, String> {
    ring.lift(phase)
        .iter()
        .map(|x| {
            let neg = x > &ring.half;
            let y = if neg { &ring.q - x } else { x.clone() };
            match u64::try_from(&y) {
                Ok(v) if v < 1 << 40 => Ok(if neg { -(v as i64) } else { v as i64 }),
                _ => Err(format!("error coefficient of {} bits", y.bits())),
            }
        })
        .collect()
}

/// The error of a ciphertext whose message polynomial is known.
pub fn ct_error(own: &Owner, level: usize, c0: &Poly, c1: &Poly, m: &Res) -> Result<Vec<i64>, String> {
    let ring = &own.tenant.rings[level];
    let ph = ring.phase(&[res_of(c0), res_of(c1)], &own.s);
    small_error(ring, &ring.sub(&ph, m))
}

fn job(ten: &Arc<Tenant>, own: &Owner, op: &Op) -> Out {
    let a = |i: usize| op.args.get(i).copied().unwrap_or(0);
    let n = ten.cfg.n;
    let v = ten.cfg.v;
    let pvw = |m: u64, nn: u64, ell: u64, q: u64| {
        let par = PvwParams { n: nn as usize, ell: ell as usize, m: m as usize, q, variance: v };
        let sk = PvwSk::gen_sk(&par);
        let pk = sk.gen_pk(&par);
        let k = Keys { sk, pk };
        let e = pk_errors(&par, &k).unwrap_or_else(|x| panic!("{}", x.text));
        // one vector per component, as sampled
        let errs: Vec<Vec<i64>> = (0..par.ell).map(|l| e.iter().map(|r| r[l]).collect()).collect();
        let mut u: Vec<u64> = k.pk.sim_rows().iter().flat_map(|r| r.a.clone()).collect();
        u.extend(k.sk.sim_rows().iter().flatten());
        (errs, u)
    };
    let err = |cnt: usize| -> Vec<Vec<i64>> {
        let z = Poly::zero(&ten.params.q_ctxs[0], Representation::Ntt);
        let zr = ten.rings[0].from_u64(&vec![0; n]);
        (0..cnt)
            .map(|_| {
                let c = own.sk.encrypt_poly(&z);
                ct_error(own, 0, &c.cts[0], &c.cts[1], &zr).unwrap_or_else(|x| panic!("fresh encryption: {x}"))
            })
            .collect()
    };
    match op.kind.as_str() {
        "secret" => Out::Small((0..(a(0) as usize).div_ceil(n)).map(|_| SecretKey::generate(&ten.params).coeffs.to_vec()).collect()),
        "rsecret" => Out::Small(vec![SecretKey::generate(&ten.params).coeffs.to_vec()]),
        "error" => Out::Small(err((a(0) as usize).div_ceil(n))),
        "rerror" => Out::Small(err(1)),
        "pvw" => {
            let (mut e, mut u) = (vec![], vec![]);
            while e.len() as u64 * a(0) < a(4) {
                let (x, y) = pvw(a(0), a(1), a(2), a(3));
                e.extend(x);
                u.extend(y);
            }
            Out::Both(e, a(3), u)
        }
        "rpvw" => {
            let (e, u) = pvw(a(0), a(1), a(2), a(3));
            let _ = u;
            Out::Small(e)
        }
        "mask" => {
            let k = (a(0) % ten.rings[0].moduli.len() as u64) as usize;
            let z = Poly::zero(&ten.params.q_ctxs[0], Representation::Ntt);
            let mut u = vec![];
            while (u.len() as u64) < a(0) {
                let c = own.sk.encrypt_poly(&z);
                u.extend(c.cts[1].coefficients().row(k).iter().copied());
            }
            Out::Uniform(ten.rings[0].moduli[k], u)
        }
        "tiny" | "wide" => {
            let q = if op.kind == "wide" { (0..100_000).map(|i| (a(1) / 16 - i) * 16 + 1).find(|c| usable(*c)).expect("a usable modulus") } else { a(1) };
            let mut u: Vec<u64> = vec![];
            let ctx = Arc::new(RqContext::new(vec![q], 8, BitDecomposition { base: 4, l: 2 }));
            let mut g = Rng::new(a(2));
            let mut rng = rand::thread_rng();
            while (u.len() as u64) < a(3) {
                match a(0) {
                    0 => {
                        let par = PvwParams { n: 3, ell: 5, m: 9, q, variance: 1 };
                        let sk = PvwSk::gen_sk(&par);
                        u.extend(sk.sim_rows().iter().flatten());
                        u.extend(sk.gen_pk(&par).sim_rows().iter().flat_map(|r| r.a.clone()));
                    }
                    1 => u.extend(Poly::random(&ctx, &mut rng, Representation::Ntt).coefficients().iter()),
                    _ => {
                        let mut s = [0u8; 32];
                        s.iter_mut().for_each(|b| *b = g.next() as u8);
                        u.extend(Poly::random_from_seed(&ctx, Representation::Ntt, s).coefficients().iter());
                    }
                }
            }
            Out::Uniform(q, u)
        }
        "seed" => {
            let mut g = Rng::new(a(0));
            let ctx = &ten.params.q_ctxs[(g.below(ten.levels() as u64)) as usize];
            let rep = if a(1) % 2 == 0 { Representation::Ntt } else { Representation::PowerBasis };
            let mut bad = None;
            for _ in 0..8 {
                let mut s = [0u8; 32];
                s.iter_mut().for_each(|b| *b = g.next() as u8);
                let p = Poly::random_from_seed(ctx, rep.clone(), s);
                // something else in between
                let mut o = s;
                o[g.below(32) as usize] ^= 1 << g.below(8);
                let q = Poly::random_from_seed(ctx, rep.clone(), o);
                let r = Poly::random_from_seed(ctx, rep.clone(), s);
                if dig_poly(&p) != dig_poly(&r) {
                    bad = Some("one seed expands to two different polynomials".to_string());
                }
                if dig_poly(&p) == dig_poly(&q) {
                    bad = Some("two seeds that differ in one bit expand to the same polynomial".to_string());
                }
                for (m, row) in ctx.moduli_64.iter().zip(p.coefficients().outer_iter()) {
                    if row.iter().any(|x| x >= m) {
                        bad = Some("an expanded residue is not below its modulus".to_string());
                    }
                }
                // rows of different moduli and neighbouring coefficients are not copies
                if n >= 16 {
                    let c = p.coefficients();
                    let first: Vec<u64> = c.row(0).to_vec();
                    if (1..c.nrows()).any(|i| c.row(i).to_vec() == first) {
                        bad = Some("an expanded polynomial has the same residues for two moduli".to_string());
                    }
                }
            }
            Out::Seed(bad)
        }
        k => panic!("harness: unknown {k}"),
    }
}

fn chi(obs: &[f64], exp: &[f64]) -> (f64, f64) {
    // merge cells until every expectation is at least 20
    let (mut c, mut dof): (f64, f64) = (0.0, -1.0);
    let (mut o, mut e): (f64, f64) = (0.0, 0.0);
    for (x, y) in obs.iter().zip(exp) {
        o += x;
        e += y;
        if e >= 20.0 {
            c += (o - e) * (o - e) / e;
            dof += 1.0;
            o = 0.0;
            e = 0.0;
        }
    }
    if e > 0.5 {
        c += (o - e) * (o - e) / e;
        dof += 1.0;
    }
    (c, dof.max(1.0))
}

fn too_far(c: f64, dof: f64) -> bool {
    c > dof + 8.0 * (2.0 * dof).sqrt() + 40.0
}

fn shape(vecs: &[Vec<i64>], v: usize, what: &str) -> Res1<u64> {
    let all: Vec<f64> = vecs.iter().flatten().map(|x| *x as f64).collect();
    let s = all.len() as f64;
    let vf = v as f64;
    let z = 7.0;
    let mean = all.iter().sum::<f64>() / s;
    if mean.abs() > z * (vf / s).sqrt() {
        return viol("mean", format!("{what}: mean {mean:.4} over {s} samples of variance {v}"));
    }
    let var = all.iter().map(|x| x * x).sum::<f64>() / s;
    // variance of the square of a centred binomial with 4v coins: v(2v - 1/2) + ... bounded by 2v^2
    let sd = (2.0 * vf * vf / s).sqrt().max(0.02 * vf / s.sqrt());
    if (var - vf).abs() > z * sd {
        return viol("variance", format!("{what}: sample variance {var:.3} over {s} samples, declared {v}"));
    }
    // shape: difference of two binomials of 2v coins = binomial of 4v coins shifted by 2v
    let k = 4 * v;
    let mut p = vec![0f64; k + 1];
    let mut c = 1f64;
    for i in 0..=k {
        p[i] = c * 0.5f64.powi(k as i32) * s;
        c = c * (k - i) as f64 / (i + 1) as f64;
    }
    let mut obs = vec![0f64; k + 1];
    for x in &all {
        obs[(*x as i64 + 2 * v as i64) as usize] += 1.0;
    }
    let (c, dof) = chi(&obs, &p);
    if too_far(c, dof) {
        return viol("shape", format!("{what}: chi-square {c:.0} with {dof} degrees of freedom against the centred binomial"));
    }
    let mut tests = 3;
    // independence: within a vector at every lag up to 64 and at half its length, and across vectors
    let len = vecs[0].len();
    let mut lags: Vec<usize> = (1..len.min(65)).collect();
    lags.push(len / 2);
    lags.push(len.saturating_sub(1));
    for sq in [false, true] {
        let f = |x: i64| if sq { (x * x) as f64 - vf } else { x as f64 };
        let norm = if sq { all.iter().map(|x| (x * x - vf) * (x * x - vf)).sum::<f64>() / s } else { vf };
        if norm < 1e-9 {
            continue;
        }
        for lag in lags.iter().copied().filter(|l| *l > 0 && *l < len) {
            let mut acc = 0.0;
            let mut cnt = 0.0f64;
            for x in vecs {
                for i in 0..x.len() - lag {
                    acc += f(x[i]) * f(x[i + lag]);
                    cnt += 1.0;
                }
            }
            if cnt < 500.0 {
                continue;
            }
            tests += 1;
            let r = acc / cnt / norm;
            let lim = (if sq { 12.0 } else { 7.5 }) / cnt.sqrt();
            if r.abs() > lim {
                return viol("independence", format!("{what}: {} at distance {lag} correlate by {r:.4} over {cnt} pairs", if sq { "squares" } else { "coefficients" }));
            }
        }
        let mut acc = 0.0;
        let mut cnt = 0.0f64;
        for w in vecs.windows(2) {
            for i in 0..len.min(w[1].len()) {
                acc += f(w[0][i]) * f(w[1][i]);
                cnt += 1.0;
            }
        }
        if cnt > 500.0 {
            tests += 1;
            let r = acc / cnt / norm;
            if r.abs() > (if sq { 12.0 } else { 7.5 }) / cnt.sqrt() {
                return viol("independence", format!("{what}: consecutive vectors correlate by {r:.4}"));
            }
        }
    }
    // every position of the vector alike
    if vecs.len() >= 400 {
        let m = vecs.len() as f64;
        for i in 0..len.min(256) {
            let mu = vecs.iter().map(|x| x[i] as f64).sum::<f64>() / m;
            let va = vecs.iter().map(|x| (x[i] * x[i]) as f64).sum::<f64>() / m;
            tests += 2;
            if mu.abs() > 7.5 * (vf / m).sqrt() {
                return viol("mean", format!("{what}: position {i} has mean {mu:.3} over {m} vectors of variance {v}"));
            }
            if (va - vf).abs() > 9.0 * (2.0 * vf * vf / m).sqrt() {
                return viol("variance", format!("{what}: position {i} has variance {va:.3} over {m} vectors, declared {v}"));
            }
        }
    }
    Ok(tests)
}

pub fn uniform(q: u64, u: &[u64], what: &str) -> Res1<u64> {
    if let Some(x) = u.iter().find(|x| **x >= q) {
        return viol("unreduced", format!("{what}: {x} is not below the modulus {q}"));
    }
    let s = u.len() as f64;
    if s < 1000.0 {
        return Ok(0);
    }
    let mut tests = 0;
    for (name, f) in [
        ("range", Box::new(|x: u64| (x as u128 * 32 / q as u128) as usize) as Box<dyn Fn(u64) -> usize>),
        ("residues modulo 32", Box::new(|x: u64| (x % 32) as usize)),
    ] {
        let mut obs = vec![0f64; 32];
        u.iter().for_each(|x| obs[f(*x)] += 1.0);
        let mut exp = vec![s / 32.0; 32];
        if q < 1 << 16 {
            exp = vec![0.0; 32];
            (0..q).for_each(|x| exp[f(x)] += s / q as f64);
        }
        let (c, dof) = chi(&obs, &exp);
        tests += 1;
        if too_far(c, dof) {
            return viol("uniform", format!("{what}: {name} unevenly covered, chi-square {c:.0} with {dof} degrees of freedom over {s} residues modulo {q}"));
        }
    }
    if (q as f64) < s / 30.0 {
        let mut obs = vec![0f64; q as usize];
        u.iter().for_each(|x| obs[*x as usize] += 1.0);
        let (c, dof) = chi(&obs, &vec![s / q as f64; q as usize]);
        tests += 1;
        if too_far(c, dof) {
            return viol("uniform", format!("{what}: chi-square {c:.0} with {dof} degrees of freedom over the {q} residues"));
        }
        if let Some(x) = obs.iter().position(|o| *o == 0.0) {
            return viol("uniform", format!("{what}: residue {x} never occurs among {s} residues modulo {q}"));
        }
    }
    // neighbours
    let h = q as f64 / 2.0;
    let r = u.windows(2).map(|w| (w[0] as f64 - h) * (w[1] as f64 - h)).sum::<f64>() / (s - 1.0) / (h * h / 3.0);
    tests += 1;
    if r.abs() > 7.5 / s.sqrt() {
        return viol("independence", format!("{what}: neighbouring residues correlate by {r:.4}"));
    }
    let mut d = u.to_vec();
    d.sort();
    d.dedup();
    if (q as f64) > s * s * 1e6 && d.len() != u.len() {
        return viol("uniform", format!("{what}: {} repeated residues modulo {q}", u.len() - d.len()));
    }
    Ok(tests)
}

pub fn run(plan: &Plan, cx: &mut Cx) -> Res1<()> {
    let ten = Tenant::build(&Cfg::get(plan, 0));
    let own = crate::machine::make_owner(plan, cx, 0, &ten)?;
    let jobs: Vec<(u64, JobFn<Out>)> = plan
        .ops
        .iter()
        .map(|op| {
            let (id, ten, own, op) = (op.id, ten.clone(), own.clone(), op.clone());
            let f: JobFn<Out> = Arc::new(move || job(&ten, &own, &op));
            (id, f)
        })
        .collect();
    let res = run_jobs(plan, cx, 1, jobs, false)?;
    let v = ten.cfg.v;
    for (op, (o, _, _)) in plan.ops.iter().zip(res) {
        let what = format!("op {} ({})", op.id, op.kind);
        let o = must(o, &what)?;
        cx.checks += 1;
        cx.count(&format!("op_{}", op.kind), 1);
        let good = !op.kind.starts_with('r');
        let mut hash = 0;
        let mut bound = |vs: &Vec<Vec<i64>>, cx: &mut Cx| -> Res1<()> {
            for x in vs.iter().flatten() {
                hash = crate::rt::fnv(hash, *x as u64);
                if x.unsigned_abs() as usize > 2 * v {
                    return viol("bound", format!("{what}: sampled {x}, the bound for variance {v} is {}", 2 * v));
                }
                if x.unsigned_abs() as usize == 2 * v {
                    cx.count("probe_sample_at_its_bound", 1);
                }
            }
            cx.count("samples_checked", vs.iter().map(|x| x.len() as u64).sum());
            Ok(())
        };
        match &o {
            Out::Small(e) => {
                bound(e, cx)?;
                if good {
                    let t = shape(e, v, &what)?;
                    cx.count("statistical_tests", t);
                }
            }
            Out::Both(e, q, u) => {
                bound(e, cx)?;
                let t = shape(e, v, &what)? + uniform(*q, u, &what)?;
                cx.count("statistical_tests", t);
            }
            Out::Uniform(q, u) => {
                let t = uniform(*q, u, &what)?;
                hash = dig_vec(u);
                cx.count("statistical_tests", t);
            }
            Out::Seed(Some(s)) => return viol("seed", format!("{what}: {s}")),
            Out::Seed(None) => {}
        }
        cx.ev(format!("{what}: digest {hash:016x}"));
    }
    Ok(())
}
