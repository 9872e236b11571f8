//! Fresh randomness (every mask and error is its own) and pairs of executions
//! under one entropy stream (what is sent does not depend on the secret).

use crate::gen::*;
use crate::machine::{make_owner, Owner};
use crate::pir::{build_query, build_server, gen_service, make_db, Shape};
use crate::plan::{Op, Plan};
use crate::pvw::{bits, pk_errors, Keys};
use crate::refm::*;
use crate::rt::{self, fnv, mix2, Outcome, Rng};
use crate::sampler::{ct_error, uniform};
use crate::world::*;
use onion_pir::sim_api::{
    BfvCipherText, Encoding, GaliosKey, Ksk, PirEvalKey, Plaintext, Poly, PvwCiphertext, PvwParams, PvwSk, RelinearizationKey, Representation, RgswCt,
    SecretKey, Substitution,
};
use std::collections::BTreeMap;
use std::sync::Arc;

// ---------------------------------------------------------------- C09

/// One ciphertext or key row: its mask and, where it has one, its error.
struct Row {
    label: String,
    modulus: Vec<u64>,
    mask: Vec<Vec<u64>>,
    error: Option<Vec<i64>>,
    /// false: too short for two draws never to coincide
    error_distinct: bool,
    secret: bool,
}

pub fn gen_fresh(p: &mut Plan, rng: &mut Rng, deep: bool) {
    let tb = *rng.pick(&[12, 17, 21, 40]);
    // very many encryptions in one process
    let marathon = rng.below(50) == 0;
    let ns: &[usize] = if marathon { &[32] } else if rng.chance(5) { &[256, 1024] } else { &[32, 32, 64] };
    let ks = if marathon { (1, 2) } else { (1, 6) };
    let mut cfg = gen_cfg(rng, ks, ns, tb);
    cfg.v = rng.range(4, 16) as usize;
    cfg.dflt = false;
    cfg.put(p, 0);
    let owners = rng.range(1, 3);
    p.set("owners", owners);
    for o in 0..owners {
        p.set(&format!("o{o}.sk"), if rng.chance(80) { 0 } else { 3 });
    }
    schedule_knobs(p, rng, 4);
    p.set("restart", rng.chance(25) as u64);
    let w: Vec<(&str, u64)> = vec![("enc", 8), ("encz", 4), ("encp", 4), ("ksk", 4), ("gk", 3), ("rlk", 3), ("rgsw", 3), ("ek", 1), ("sk", 3), ("pvw", 3)];
    let w: Vec<(&str, u64)> = w.into_iter().filter(|x| x.0 == "enc" || !rng.chance(20)).collect();
    // a long run is mostly one kind of operation
    let often = *rng.pick(&["enc", "enc", "encz", "encp", "ksk", "gk", "rlk", "rgsw", "pvw", ""]);
    let w: Vec<(&str, u64)> = w.into_iter().map(|x| if marathon && x.0 == often { (x.0, 150) } else { x }).collect();
    let long = if marathon && often.starts_with("enc") { rng.range(300, 1200) } else { rng.range(150, 400) };
    let fail = if marathon { *rng.pick(&[0, 0, 3]) } else { *rng.pick(&[0, 0, 20]) };
    let big = cfg.n > 64;
    let mut prev: Option<(String, Vec<u64>)> = None;
    for _ in 0..if marathon { long } else { rng.range(4, if big { 6 } else if deep { 24 } else { 14 }) } {
        let kind = weighted(rng, &w).to_string();
        let args: Vec<u64> = (0..5).map(|_| rng.next() >> 16).collect();
        // the same request again: nothing may be reused
        let (kind, args) = match (&prev, rng.chance(35)) {
            (Some(x), true) => x.clone(),
            _ => (kind, args),
        };
        if big && kind == "ek" {
            continue;
        }
        prev = Some((kind.clone(), args.clone()));
        let id = p.op(rng.below(owners), &kind, args);
        if rng.chance(fail) {
            let at = rng.below(600);
            p.fault("entropy_fail", vec![id, at]);
        }
        if p.knob("preempt") > 0 && rng.chance(8) {
            p.fault("stall", vec![id, rng.below(20)]);
        }
    }
    // which operations also get the byte-by-byte dependence test
    p.set("flip", if big || marathon { 0 } else { rng.range(1, 2) });
}

fn rows_of_ksk(own: &Owner, level: usize, k: &Ksk, from: &Res, what: &str) -> Vec<Row> {
    let ring = &own.tenant.rings[level];
    assert!(k.c0.len() == ring.moduli.len() && k.c1.len() == k.c0.len(), "{what}: {} rows for {} moduli", k.c0.len(), ring.moduli.len());
    (0..k.c0.len())
        .map(|i| {
            let m = ring.scale_big(from, ring.garner(i));
            row_of(own, level, &k.c0[i], &k.c1[i], &m, format!("{what} row {i}"))
        })
        .collect()
}

fn row_of(own: &Owner, level: usize, c0: &Poly, c1: &Poly, m: &Res, label: String) -> Row {
    let e = ct_error(own, level, c0, c1, m).unwrap_or_else(|x| panic!("{label}: {x}"));
    Row {
        label,
        modulus: own.tenant.rings[level].moduli.clone(),
        mask: c1.coefficients().outer_iter().map(|r| r.to_vec()).collect(),
        error: Some(e),
        error_distinct: true,
        secret: false,
    }
}

fn fresh_job(own: &Owner, op: &Op) -> Vec<Row> {
    let ten = &own.tenant;
    let (n, t) = (ten.cfg.n, ten.cfg.t);
    let a = |i: usize| op.args.get(i).copied().unwrap_or(0);
    let level = (a(0) % ten.levels() as u64) as usize;
    let ring = &ten.rings[level];
    let ctx = &ten.params.q_ctxs[level];
    let what = format!("op {} ({})", op.id, op.kind);
    let poly = |v: &[i64]| {
        let mut p = Poly::try_from_vec_i64(ctx, v);
        p.change_representation(Representation::Ntt);
        p
    };
    match op.kind.as_str() {
        "enc" => {
            let simd = a(1) % 2 == 1;
            let pt = Plaintext::new(&ten.params, &values(a(2), a(3), n, t), level, if simd { Encoding::SIMD } else { Encoding::Poly });
            let c = own.sk.encrypt(&pt);
            vec![row_of(own, level, &c.cts[0], &c.cts[1], &res_of(&pt.to_poly()), what)]
        }
        "encz" => {
            let z = ring.from_u64(&vec![0; n]);
            let c = if a(1) % 2 == 0 {
                own.sk.encrypt_poly(&Poly::zero(ctx, Representation::Ntt))
            } else {
                own.sk.encrypt(&Plaintext::new(&ten.params, &vec![0; n], level, Encoding::Poly))
            };
            vec![row_of(own, level, &c.cts[0], &c.cts[1], &z, what)]
        }
        "encp" => {
            let v: Vec<i64> = values(a(2), a(3), n, t).iter().map(|x| *x as i64).collect();
            let c = own.sk.encrypt_poly(&poly(&v));
            vec![row_of(own, level, &c.cts[0], &c.cts[1], &ring.from_i64(&v), what)]
        }
        "ksk" => {
            let v: Vec<i64> = values(a(2), a(3), n, t).iter().map(|x| *x as i64).collect();
            let k = Ksk::new(&own.sk, &poly(&v), level, level);
            rows_of_ksk(own, level, &k, &ring.from_i64(&v), &what)
        }
        "gk" => {
            if ten.levels() < 2 {
                return vec![];
            }
            let k = 2 * (a(1) % n as u64) + 1;
            let g = GaliosKey::new(&own.sk, &Substitution::new(ctx, k as usize), level);
            rows_of_ksk(own, level, g.sim_ksk(), &ring.from_i64(&isubst(&own.s, k)), &what)
        }
        "rlk" => {
            let g = RelinearizationKey::new(&own.sk, level);
            rows_of_ksk(own, level, g.sim_ksk(), &ring.from_i64(&imul(&own.s, &own.s)), &what)
        }
        "rgsw" => {
            let v = small_values(a(2), a(3), n, t);
            let g = if a(1) % 2 == 0 {
                RgswCt::encrypt(&own.sk, &Plaintext::new(&ten.params, &v, level, Encoding::Poly))
            } else {
                RgswCt::encrypt_poly(&own.sk, &poly(&v.iter().map(|x| *x as i64).collect::<Vec<_>>()))
            };
            let m = ring.from_u64(&v);
            let mut r = rows_of_ksk(own, level, &g.ksk0, &ring.mul(&m, &ring.from_i64(&own.s)), &format!("{what} upper half"));
            r.extend(rows_of_ksk(own, level, &g.ksk1, &m, &format!("{what} lower half")));
            r
        }
        "ek" => {
            if ten.levels() < 2 {
                return vec![];
            }
            let e = PirEvalKey::build(&own.sk, &ten.params);
            let ring = &ten.rings[0];
            let s = ring.from_i64(&own.s);
            let mut r = vec![];
            for (k, g) in e.galois_keys() {
                r.extend(rows_of_ksk(own, 0, g.sim_ksk(), &ring.from_i64(&isubst(&own.s, k as u64)), &format!("{what} Galois key {k}")));
            }
            r.extend(rows_of_ksk(own, 0, &e.sk_rgsw().ksk0, &ring.from_i64(&imul(&own.s, &own.s)), &format!("{what} encrypted secret, upper half")));
            r.extend(rows_of_ksk(own, 0, &e.sk_rgsw().ksk1, &s, &format!("{what} encrypted secret, lower half")));
            r
        }
        "sk" => {
            let s = SecretKey::generate(&ten.params);
            vec![Row { label: what, modulus: vec![], mask: vec![], error: Some(s.coeffs.to_vec()), error_distinct: true, secret: true }]
        }
        "pvw" => {
            let q = [65537, 786433, 4294967291, 1152921504606846883][(a(1) % 4) as usize];
            let par = PvwParams { n: 8 + (a(2) % 9) as usize, ell: 1 + (a(3) % 5) as usize, m: 128 + (a(4) % 120) as usize, q, variance: ten.cfg.v };
            let sk = PvwSk::gen_sk(&par);
            let pk = sk.gen_pk(&par);
            let k = Keys { sk, pk };
            let e = pk_errors(&par, &k).unwrap_or_else(|x| panic!("{what}: {}", x.text));
            let mut r = vec![];
            let mut same = 0;
            for i in 1..par.m {
                same += (e[i] == e[i - 1]) as usize;
            }
            assert!(same * 4 < par.m * 3, "{what}: {same} of {} public key rows repeat the error of the row before", par.m);
            for (i, x) in k.pk.sim_rows().iter().enumerate() {
                r.push(Row { label: format!("{what} public key row {i}"), modulus: vec![q], mask: vec![x.a.clone()], error: None, error_distinct: false, secret: false });
            }
            for l in 0..par.ell {
                r.push(Row { label: format!("{what} public key errors of component {l}"), modulus: vec![], mask: vec![], error: Some(e.iter().map(|x| x[l]).collect()), error_distinct: true, secret: false });
            }
            for (l, x) in k.sk.sim_rows().iter().enumerate() {
                r.push(Row { label: format!("{what} secret key row {l}"), modulus: vec![q], mask: vec![x.clone()], error: None, error_distinct: false, secret: true });
            }
            for j in 0..4 {
                // two clues with the same bits
                let c = k.pk.encrypt(&par, bits(j / 2, 0, par.ell));
                r.push(Row { label: format!("{what} clue {j}"), modulus: vec![], mask: vec![c.a.clone()], error: None, error_distinct: false, secret: false });
            }
            r
        }
        k => panic!("harness: unknown {k}"),
    }
}

fn dig_mask(m: &[Vec<u64>]) -> u64 {
    m.iter().fold(17, |h, r| fnv(h, dig_vec(r)))
}
fn dig_err(e: &[i64]) -> u64 {
    e.iter().fold(19, |h, x| fnv(h, *x as u64))
}

pub fn run_fresh(plan: &Plan, cx: &mut Cx) -> Res1<()> {
    let ten = Tenant::build(&Cfg::get(plan, 0));
    let owners: Vec<Owner> = (0..plan.knob("owners")).map(|o| make_owner(plan, cx, o, &ten)).collect::<Result<_, _>>()?;
    let fns: Vec<(u64, JobFn<Vec<Row>>)> = plan
        .ops
        .iter()
        .map(|op| {
            let (id, own, op) = (op.id, owners[op.actor as usize % owners.len()].clone(), op.clone());
            let f: JobFn<Vec<Row>> = Arc::new(move || fresh_job(&own, &op));
            (id, f)
        })
        .collect();
    let res = run_jobs(plan, cx, 21, fns.clone(), false)?;
    let v2 = 2 * ten.cfg.v as i64;
    // (digest) -> where it was seen first
    let mut masks: BTreeMap<u64, String> = BTreeMap::new();
    let mut errors: BTreeMap<u64, String> = BTreeMap::new();
    for (o, own) in owners.iter().enumerate() {
        if plan.knob_or(&format!("o{o}.sk"), 0) == 0 {
            if let Some(w) = errors.insert(dig_err(&own.s), format!("the secret key of client {o}")) {
                return viol("secret-reused", format!("client {o} has the same secret key as {w}"));
            }
        }
    }
    let mut pool: BTreeMap<u64, Vec<u64>> = BTreeMap::new();
    let mut flips = plan.knob_or("flip", 0);
    for (op, ((o, stream, att), (_, f))) in plan.ops.iter().zip(res.into_iter().zip(&fns)) {
        let what = format!("op {} ({})", op.id, op.kind);
        let rows = must(o, &what)?;
        cx.count(&format!("op_{}", op.kind), 1);
        let mut h = 0;
        for r in &rows {
            cx.checks += 1;
            if !r.mask.is_empty() {
                for (i, m) in r.mask.iter().enumerate() {
                    // a whole residue row: at least 128 bits
                    let d = dig_vec(m);
                    h = fnv(h, d);
                    if m.iter().all(|x| *x == 0) {
                        return viol("unmasked", format!("{}: the mask is zero modulo prime {i}", r.label));
                    }
                    if let Some(w) = masks.insert(d, r.label.clone()) {
                        return viol("mask-reused", format!("{} has the mask of {w}", r.label));
                    }
                    if let Some(q) = r.modulus.get(i) {
                        pool.entry(*q).or_default().extend(m);
                    }
                    cx.digests.push((op.id, d));
                }
                cx.count("masks", 1);
            }
            if let Some(e) = &r.error {
                let d = dig_err(e);
                h = fnv(h, d);
                if let Some(x) = e.iter().find(|x| x.abs() > v2) {
                    return viol("error-bound", format!("{}: error coefficient {x}, the bound is {v2}", r.label));
                }
                if e.iter().all(|x| *x == 0) {
                    return viol("no-error", format!("{}: the error is zero", r.label));
                }
                if r.error_distinct {
                    let neg: Vec<i64> = e.iter().map(|x| -x).collect();
                    let w = errors.insert(d, r.label.clone()).or(errors.get(&dig_err(&neg)).cloned());
                    if let Some(w) = w {
                        return viol("error-reused", format!("{} repeats {w}", r.label));
                    }
                    cx.digests.push((op.id, d));
                }
                cx.count("errors", 1);
            }
            if r.secret {
                cx.count("secrets", 1);
            }
        }
        cx.ev(format!("{what}: {} rows, {} bytes drawn, digest {h:016x}", rows.len(), stream.pos));
        if flips > 0 && rows.len() > 0 && rows.len() <= 8 && !matches!(op.kind.as_str(), "ek" | "pvw") && stream.pos < 6000 {
            flips -= 1;
            dependence(plan, cx, op, att, stream.pos, &rows, f, &what)?;
        }
    }
    for (q, u) in &pool {
        let t = uniform(*q, u, &format!("all masks modulo {q}"))?;
        cx.count("statistical_tests", t);
    }
    // the same history after a restart, with what the entropy source delivers then
    if plan.knob_or("restart", 0) == 1 {
        let mut again = plan.clone();
        again.set("restart", 0);
        again.set("flip", 0);
        again.set("entropy", mix2(plan.knob("entropy"), 99) >> 1);
        let r = crate::driver::child(&again, false).unwrap_or_else(|e| panic!("harness: {e}"));
        if let Some(v) = r.violation {
            return viol(&v.0, format!("after a restart: {}", v.1));
        }
        cx.count("restarts", 1);
        cx.fired("process_restart", 1);
        let seen: std::collections::BTreeSet<u64> = cx.digests.iter().map(|d| d.1).collect();
        for (id, d) in r.digests {
            cx.checks += 1;
            if seen.contains(&d) {
                return viol("restart-reuse", format!("op {id}: a mask, error or secret drawn before the restart is drawn again after it"));
            }
        }
    }
    cx.digests.clear();
    Ok(())
}

/// Inverts each entropy byte in turn: every mask and every error must hang on at
/// least 16 bytes that no other mask (error) of the operation hangs on.
fn dependence(plan: &Plan, cx: &mut Cx, op: &Op, att: u64, bytes: u64, rows: &[Row], f: &JobFn<Vec<Row>>, what: &str) -> Res1<()> {
    let base: Vec<(u64, u64)> = rows.iter().map(|r| (dig_mask(&r.mask), r.error.as_ref().map(|e| dig_err(e)).unwrap_or(0))).collect();
    let mut own = vec![(0u64, 0u64); rows.len()];
    for o in 0..bytes {
        let mut s = stream_for(plan, op.id, att);
        s.fail_at = None;
        s.flips = vec![o];
        let (out, _) = rt::with_stream(s, || f());
        let Outcome::Ok(alt) = out else { return viol("entropy-dependent", format!("{what} fails when entropy byte {o} is inverted")) };
        if alt.len() != rows.len() {
            return viol("entropy-dependent", format!("{what} has a different number of rows when entropy byte {o} is inverted"));
        }
        let alt: Vec<(u64, u64)> = alt.iter().map(|r| (dig_mask(&r.mask), r.error.as_ref().map(|e| dig_err(e)).unwrap_or(0))).collect();
        let dm: Vec<usize> = (0..rows.len()).filter(|i| alt[*i].0 != base[*i].0).collect();
        let de: Vec<usize> = (0..rows.len()).filter(|i| alt[*i].1 != base[*i].1).collect();
        if dm.len() == 1 {
            own[dm[0]].0 += 1;
        }
        if de.len() == 1 {
            own[de[0]].1 += 1;
        }
    }
    cx.fired("entropy_byte_inverted", bytes);
    for (i, r) in rows.iter().enumerate() {
        cx.checks += 1;
        cx.count("dependence_tests", 1);
        if !r.mask.is_empty() && own[i].0 < 16 {
            return viol("stale-mask", format!("{}: the mask hangs on {} bytes of new entropy of its own out of {bytes} drawn", r.label, own[i].0));
        }
        if r.error.is_some() && own[i].1 < 16 {
            return viol("stale-error", format!("{}: the error hangs on {} bytes of new entropy of its own out of {bytes} drawn", r.label, own[i].1));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C10

pub fn gen_pairs(p: &mut Plan, rng: &mut Rng, deep: bool) {
    let ns: &[usize] = if rng.chance(4) { &[128, 256] } else { &[8, 8, 16, 16, 32, 64] };
    let (mut cfg, mut sh) = gen_service(rng, ns, if deep { 128 } else { 64 });
    if rng.chance(40) {
        // no query: any parameters do
        let tb = *rng.pick(&[12, 17, 21, 40, 58]);
        cfg = gen_cfg(rng, (1, 6), ns, tb);
        sh = Shape { first: 0, dim: 0, nd: 0 };
    }
    cfg.put(p, 0);
    sh.put(p, 0);
    let rate = *rng.pick(&[0, 0, 30, 80]);
    let fail = *rng.pick(&[0, 0, 20]);
    owner_keys(p, rng, 0, &cfg, rate);
    schedule_knobs(p, rng, 4);
    p.set("db.kind", rng.below(6));
    p.set("db.seed", rng.next() >> 8);
    for _ in 0..rng.range(2, if cfg.n >= 128 { 3 } else if deep { 14 } else { 8 }) {
        let mut kind = weighted(rng, &[("query", 6), ("msg", 4), ("msgpoly", 2), ("rgsw", 3), ("ksk", 3), ("clue", 3)]);
        if kind == "query" && sh.first == 0 {
            kind = "msg";
        }
        let id = p.op(rng.below(3), kind, (0..7).map(|_| rng.next() >> 16).collect());
        if kind == "clue" {
            if rng.chance(rate) {
                p.fault("entropy", vec![id, 8 * rng.below(300), *rng.pick(&[64, 4096]), rng.below(5)]);
            }
        } else {
            gen_entropy_faults(p, rng, id, &cfg, rate, fail);
        }
        if p.knob("preempt") > 0 && rng.chance(6) {
            p.fault("stall", vec![id, rng.below(20)]);
        }
    }
}

/// What one execution of the pair sends.
#[derive(Clone, Default)]
struct Sent {
    /// level, moduli, representation and size of everything, in order
    shape: Vec<String>,
    /// digests that must be the same
    same: Vec<(String, u64)>,
    /// payload components, with the encoding each is expected to carry
    payload: Vec<(String, usize, Res, Res)>,
    /// PVW payload: modulus, components, encoding
    clue: Vec<(u64, Vec<u64>, Vec<u64>)>,
    cts: Vec<Vec<BfvCipherText>>,
    ek: Option<Arc<PirEvalKey>>,
}

fn shape_poly(p: &Poly) -> String {
    format!("{:?} {:?} {:?}", p.representation, p.context.moduli_64, p.coefficients().shape())
}

impl Sent {
    fn ct(&mut self, c: &BfvCipherText, enc: &Res, label: &str) {
        self.shape.push(format!("{label}: level {} components {}", c.level, c.cts.len()));
        for p in &c.cts {
            self.shape.push(shape_poly(p));
        }
        for p in &c.cts[1..] {
            self.same.push((format!("{label} mask"), dig_poly(p)));
        }
        self.payload.push((label.to_string(), c.level, res_of(&c.cts[0]), enc.clone()));
    }
    fn ksk(&mut self, own: &Owner, level: usize, k: &Ksk, from: &Res, label: &str) {
        let ring = &own.tenant.rings[level];
        self.shape.push(format!("{label}: {} and {} rows", k.c0.len(), k.c1.len()));
        for (i, (a, b)) in k.c0.iter().zip(&k.c1).enumerate() {
            self.shape.push(shape_poly(a));
            self.shape.push(shape_poly(b));
            self.same.push((format!("{label} mask of row {i}"), dig_poly(b)));
            self.payload.push((format!("{label} row {i}"), level, res_of(a), ring.scale_big(from, ring.garner(i))));
        }
    }
}

/// The two secrets of a pair; `which` selects.
fn pair_job(own: &Owner, sh: &Shape, op: &Op, which: u64) -> Sent {
    let ten = &own.tenant;
    let (n, t) = (ten.cfg.n, ten.cfg.t);
    let a = |i: usize| op.args.get(i).copied().unwrap_or(0);
    let level = (a(0) % ten.levels() as u64) as usize;
    let ring = &ten.rings[level];
    let ctx = &ten.params.q_ctxs[level];
    let mut s = Sent::default();
    // the message of this side: boundary values against random ones, zero against anything
    let val = |small: bool| {
        let (k, sd) = if which == 0 { (a(2), a(3)) } else { (a(4), a(5)) };
        if small {
            small_values(k, sd, n, t)
        } else {
            values(k, sd, n, t)
        }
    };
    match op.kind.as_str() {
        "query" => {
            let ek = PirEvalKey::build(&own.sk, &ten.params);
            for (k, g) in ek.galois_keys() {
                s.same.push((format!("Galois key {k}"), dig_ksk(g.sim_ksk())));
            }
            s.same.push(("encrypted secret key".into(), fnv(dig_ksk(&ek.sk_rgsw().ksk0), dig_ksk(&ek.sk_rgsw().ksk1))));
            // a few queries in a row; one side may ask for the same record again and again
            let cnt = 1 + a(1) % 3;
            for j in 0..cnt {
                let idx = if which == 0 {
                    match a(6) % 4 {
                        0 => 0,
                        1 => sh.rows() - 1,
                        2 => a(2) as usize % sh.rows(),
                        _ => mix2(a(2), j) as usize % sh.rows(),
                    }
                } else {
                    mix2(a(4), j) as usize % sh.rows()
                };
                let pos = sh.position(idx);
                let q = build_query(own, sh, &pos, sh.rows());
                let mut enc = vec![0u64; sh.slots()];
                enc[pos[0]] = 1;
                for (d, x) in pos[1..].iter().enumerate() {
                    enc[sh.first + d * sh.dim + x] = 1;
                }
                let r0 = &ten.rings[0];
                let pt = Plaintext::new(&ten.params, &enc, 0, Encoding::Poly);
                s.ct(&q[0], &res_of(&pt.to_poly()), &format!("query {j} ciphertext 0"));
                let mut tail = enc[sh.first..].to_vec();
                tail.resize(n, 0);
                for (i, c) in q[1..].iter().enumerate() {
                    s.ct(c, &r0.scale_big(&r0.from_u64(&tail), r0.garner(i)), &format!("query {j} ciphertext {}", i + 1));
                }
                s.shape.push(format!("query {j}: {} ciphertexts", q.len()));
                s.cts.push(q);
            }
            s.ek = Some(Arc::new(ek));
        }
        "msg" => {
            let simd = a(1) % 2 == 1;
            let mut v = val(false);
            if !simd && a(6) % 3 == 0 {
                v.truncate(1 + (if which == 0 { a(3) } else { a(5) }) as usize % n);
            }
            let pt = Plaintext::new(&ten.params, &v, level, if simd { Encoding::SIMD } else { Encoding::Poly });
            s.ct(&own.sk.encrypt(&pt), &res_of(&pt.to_poly()), "ciphertext");
        }
        "msgpoly" => {
            let v = val(false);
            let mut p = Poly::try_from_vec_u64(ctx, &v);
            p.change_representation(Representation::Ntt);
            s.ct(&own.sk.encrypt_poly(&p), &ring.from_u64(&v), "ciphertext");
        }
        "rgsw" => {
            let v = val(a(6) % 2 == 0);
            let g = if a(1) % 2 == 0 {
                RgswCt::encrypt(&own.sk, &Plaintext::new(&ten.params, &v, level, Encoding::Poly))
            } else {
                let mut p = Poly::try_from_vec_u64(ctx, &v);
                p.change_representation(Representation::Ntt);
                RgswCt::encrypt_poly(&own.sk, &p)
            };
            let m = ring.from_u64(&v);
            s.ksk(own, level, &g.ksk0, &ring.mul(&m, &ring.from_i64(&own.s)), "upper half");
            s.ksk(own, level, &g.ksk1, &m, "lower half");
        }
        "ksk" => {
            let pt = Plaintext::new(&ten.params, &val(false), level, if a(6) % 2 == 0 { Encoding::Poly } else { Encoding::SIMD });
            let from = pt.to_poly();
            let k = if a(1) % 2 == 0 { Ksk::new_with_pt(&own.sk, &pt, level, level) } else { Ksk::new(&own.sk, &from, level, level) };
            s.ksk(own, level, &k, &res_of(&from), "key");
        }
        "clue" => {
            let q = [257, 65537, 786433, 4294967291, 1152921504606846883][(a(1) % 5) as usize];
            let par = PvwParams { n: 1 + (a(0) % 9) as usize, ell: 1 + (a(6) % 5) as usize, m: 8 + (a(6) % 60) as usize, q, variance: ten.cfg.v };
            let sk = PvwSk::gen_sk(&par);
            let pk = sk.gen_pk(&par);
            s.same.push(("PVW public key".into(), pk.sim_rows().iter().fold(3, |h, r| fnv(fnv(h, dig_vec(&r.a)), dig_vec(&r.b)))));
            for j in 0..3 {
                let m = if which == 0 { bits(a(2) % 6, mix2(a(3), j), par.ell) } else { bits(a(4) % 6, mix2(a(5), j), par.ell) };
                let c: PvwCiphertext = pk.encrypt(&par, m.clone());
                s.shape.push(format!("clue {} {}", c.a.len(), c.b.len()));
                s.same.push((format!("clue {j} mask"), dig_vec(&c.a)));
                s.clue.push((q, c.b.clone(), m.iter().map(|b| b * (q / 2)).collect()));
            }
        }
        k => panic!("harness: unknown {k}"),
    }
    s
}

pub fn run_pairs(plan: &Plan, cx: &mut Cx) -> Res1<()> {
    let ten = Tenant::build(&Cfg::get(plan, 0));
    let sh = Shape::get(plan, 0);
    let own = make_owner(plan, cx, 0, &ten)?;
    let mut jobs: Vec<(u64, JobFn<Sent>)> = vec![];
    for op in &plan.ops {
        for which in 0..2 {
            let (own, sh, op) = (own.clone(), sh.clone(), op.clone());
            let id = op.id;
            // both sides of a pair draw the same stream
            jobs.push((id, Arc::new(move || pair_job(&own, &sh, &op, which))));
        }
    }
    let res = run_jobs(plan, cx, 31, jobs, true)?;
    let mut res = res.into_iter();
    let mut asked: Vec<(u64, Vec<BfvCipherText>, Arc<PirEvalKey>)> = vec![];
    for op in &plan.ops {
        let what = format!("op {} ({})", op.id, op.kind);
        let (x, y) = (res.next().unwrap(), res.next().unwrap());
        if x.2 != y.2 {
            return viol("retries", format!("{what}: {} retries on one side, {} on the other, for the same entropy faults", x.2, y.2));
        }
        if x.1.log != y.1.log {
            let i = x.1.log.iter().zip(&y.1.log).position(|(p, q)| p != q).unwrap_or(x.1.log.len().min(y.1.log.len()));
            return viol(
                "entropy-consumption",
                format!("{what}: {} draws ({} bytes) against {} ({} bytes), first difference at draw {i}", x.1.log.len(), x.1.pos, y.1.log.len(), y.1.pos),
            );
        }
        let (p, q) = (must(x.0, &what)?, must(y.0, &what)?);
        cx.checks += 1;
        cx.count(&format!("op_{}", op.kind), 1);
        if p.shape != q.shape {
            let i = p.shape.iter().zip(&q.shape).position(|(a, b)| a != b).unwrap_or(p.shape.len().min(q.shape.len()));
            return viol("shape", format!("{what}: {:?} against {:?}", p.shape.get(i), q.shape.get(i)));
        }
        for (a, b) in p.same.iter().zip(&q.same) {
            cx.checks += 1;
            if a != b {
                return viol("mask-differs", format!("{what}: {} differs between the two executions", a.0));
            }
        }
        let mut h = 0;
        for ((label, level, a, ea), (_, _, b, eb)) in p.payload.iter().zip(&q.payload) {
            cx.checks += 1;
            let ring = &ten.rings[*level];
            let d = ring.sub(a, b);
            if d != ring.sub(ea, eb) {
                return viol("payload", format!("{what}: {label} differs by something else than the two encodings"));
            }
            if ea != eb {
                cx.count("payloads_that_differ", 1);
            }
            h = a.iter().fold(h, |h, r| fnv(h, dig_vec(r)));
        }
        for ((q, a, ea), (_, b, eb)) in p.clue.iter().zip(&q.clue) {
            for i in 0..a.len() {
                cx.checks += 1;
                let d = (a[i] as u128 + *q as u128 - b[i] as u128) % *q as u128;
                let e = (ea[i] as u128 + *q as u128 - eb[i] as u128) % *q as u128;
                if d != e {
                    return viol("payload", format!("{what}: a clue bit changes its component by {d} where the encodings differ by {e}"));
                }
            }
        }
        cx.ev(format!("{what}: {} draws, {} bytes, digest {h:016x}", x.1.draws, x.1.pos));
        if op.kind == "query" {
            for s in [p, q] {
                for c in s.cts {
                    asked.push((op.id, c, s.ek.clone().unwrap()));
                }
            }
        }
    }
    if asked.is_empty() {
        return Ok(());
    }
    // the server's side: one answer shape whatever was asked
    let db = make_db(&ten, &sh, plan.knob("db.kind"), plan.knob("db.seed"));
    let server = Arc::new(build_server(&ten, &sh, &db));
    let asked: Vec<_> = asked.into_iter().take(if ten.cfg.n >= 128 { 2 } else { 10 }).collect();
    let jobs: Vec<(u64, JobFn<Vec<String>>)> = asked
        .into_iter()
        .map(|(id, q, ek)| {
            let (server, ten) = (server.clone(), ten.clone());
            let f: JobFn<Vec<String>> = Arc::new(move || {
                let ans = server.decode(q.clone(), &ek, &ten.params);
                let mut s = vec![format!("{} ciphertexts", ans.len())];
                for c in &ans {
                    s.push(format!("level {} components {}", c.level, c.cts.len()));
                    s.extend(c.cts.iter().map(shape_poly));
                }
                s
            });
            (500_000 + id, f)
        })
        .collect();
    let mut first: Option<Vec<String>> = None;
    for (o, s, _) in run_jobs(plan, cx, 32, jobs, true)? {
        let a = must(o, "a query with a position inside the database")?;
        let a: Vec<String> = a.into_iter().chain([format!("{} bytes of entropy", s.pos)]).collect();
        cx.checks += 1;
        cx.count("answers", 1);
        match &first {
            None => first = Some(a),
            Some(f) if *f != a => return viol("answer-shape", format!("answers differ in shape: {f:?} against {a:?}")),
            _ => {}
        }
    }
    Ok(())
}
