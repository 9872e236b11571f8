//! Parameter sets asked for by careless or confused tenants, between the work of
//! healthy ones: what is built must work, everything else must be refused.

use crate::gen::*;
use crate::machine::{make_owner, Owner};
use crate::plan::Plan;
use crate::refm::*;
use crate::rt::{mix2, Outcome, Rng};
use crate::world::*;
use onion_pir::sim_api::{BfvCipherText, BfvParameters, BitDecomposition, Encoding, GaliosKey, Plaintext, RqContext, SecretKey, Substitution};
use std::sync::Arc;

/// What a tenant asks for.
#[derive(Clone, Debug)]
struct Req {
    n: usize,
    t: u64,
    q: Vec<u64>,
    v: usize,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Due {
    /// must be built and work
    Works,
    /// must not yield any value
    Refused,
    /// either (numbers that the library's primality test misjudges on the safe side)
    Open,
}

const KINDS: &[(&str, u64)] = &[
    ("plain", 6),
    ("tiny", 3),
    ("snug", 3),
    ("repeat", 3),
    ("composite", 4),
    ("pseudo", 3),
    ("half", 3),
    ("oversize", 2),
    ("below_t", 4),
    ("t_composite", 3),
    ("t_half", 2),
    ("t_small", 1),
    ("degree", 2),
    ("variance", 3),
    ("none", 1),
    ("odd", 2),
];

pub fn gen(p: &mut Plan, rng: &mut Rng, deep: bool) {
    let cfg = loop {
        let c = gen_cfg(rng, (1, 3), &[8, 16, 32], 17);
        if c.sizes.iter().sum::<usize>() > 50 {
            break c;
        }
    };
    cfg.put(p, 0);
    schedule_knobs(p, rng, 4);
    let rate = *rng.pick(&[0, 0, 20]);
    owner_keys(p, rng, 0, &cfg, rate);
    for _ in 0..rng.range(6, if deep { 30 } else { 16 }) {
        let actor = rng.below(4);
        let kind = weighted(rng, &[("req", 70), ("ring", 12), ("moduli", 25), ("good", 25)]);
        let args = (0..5).map(|_| rng.next() >> 16).collect();
        let id = p.op(actor, kind, args);
        if kind == "good" || kind == "req" {
            gen_entropy_faults(p, rng, id, &cfg, rate, if kind == "good" { rate } else { 0 });
        }
    }
    p.op(0, "good", vec![0, 1, 2, 3, 4]);
}

fn ntt_prime(x: u64, n: usize) -> bool {
    n >= 8 && n.is_power_of_two() && x < 1 << 62 && x % (2 * n as u64) == 1 && is_prime(x)
}

/// The largest number of the form 1 + m*i below `top` that passes.
fn below(top: u64, m: u64, ok: impl Fn(u64) -> bool) -> Option<u64> {
    let mut c = (top.saturating_sub(2) / m) * m + 1;
    for _ in 0..20_000 {
        if c <= 1 {
            return None;
        }
        if ok(c) {
            return Some(c);
        }
        c = c.saturating_sub(m);
    }
    None
}

/// Composite numbers that a careless primality test takes for primes.
fn pseudoprime(r: &mut Rng, m: u64) -> Option<u64> {
    // 1 modulo 16 and strong to base 2, to bases 2 and 3, to bases 2, 3, 5 and 7 or to more, Carmichael, Lucas
    const LIST: &[u64] = &[
        4033, 8321, 15841, 65281, 85489, 130561, 357761, 486737, 580337, 647089, 1016801, 1023121, 1082401, 1207361, 1357441, 1493857, 1730977, 2081713, 2264369, 5173601, 25326001, 27664033, 104852881, 105919633, 106485121, 117987841, 161304001, 206304961, 252853921, 572228929, 787085857, 871157233, 927106561, 960946321, 979363153, 981484561, 1463178817, 1481626513, 1521221473, 1538012449, 1921309633, 2323147201, 2431144801, 2626783921, 2837917633, 457453568161, 528929554561, 602248359169, 341550071728321, 561, 1105, 1729, 2465, 41041, 46657, 75361, 115921, 162401, 172081, 278545, 340561, 488881, 825265, 321197185, 5394826801, 232250619601, 9746347772161, 5777,
    ];
    let ok: Vec<u64> = LIST.iter().copied().filter(|x| x % m == 1).collect();
    match ok.is_empty() {
        true => None,
        false => Some(*r.pick(&ok)),
    }
}

fn composite(r: &mut Rng, m: u64, max_bits: u64) -> Option<u64> {
    let half = (max_bits / 2).max(7);
    let b = r.range((64 - m.leading_zeros() as u64 + 2).min(half), half);
    let p = below(1 << b, m, is_prime)?;
    let x = match r.below(4) {
        0 => p * p,
        1 => p * below(p, m, is_prime)?,
        // any product that is 1 modulo m
        2 => below(1 << (max_bits - 1), m, |c| !is_prime(c) && c % 3 != 0 && c % 5 != 0)?,
        _ => below((1 << (max_bits - 1)) - r.below(1 << (max_bits - 2)), m, |c| !is_prime(c))?,
    };
    (x % m == 1 && !is_prime(x) && x < 1 << 62).then_some(x)
}

/// What is asked for; the kind that came out of it.
fn request(args: &[u64]) -> (&'static str, Req) {
    let mut r = Rng::new(mix2(args[1], args[2]));
    loop {
        let kind = weighted(&mut r, KINDS);
        let ns: &[usize] = if r.chance(4) { &[256, 1024] } else { &[8, 8, 16, 32, 64, 128] };
        let tb = *r.pick(&[12, 17, 21, 40]);
        let cfg = gen_cfg(&mut r, (1, 5), ns, tb);
        let m = 2 * cfg.n as u64;
        let mut q = Req { n: cfg.n, t: cfg.t, q: cfg.moduli(), v: cfg.v };
        let i = r.below(q.q.len() as u64) as usize;
        let ok = match kind {
            "plain" => true,
            // as small as NTT-friendly primes get, many of them
            "tiny" => {
                q.t = below(1 << (64 - m.leading_zeros() as u64 + 6), m, usable).unwrap_or(q.t);
                let mut top = q.t * 64;
                q.q.clear();
                for _ in 0..r.range(2, 6) {
                    match below(top, m, usable) {
                        Some(c) if c > q.t => {
                            q.q.push(c);
                            top = c;
                        }
                        _ => break,
                    }
                }
                if r.chance(50) {
                    q.q.reverse();
                }
                q.q.len() >= 2
            }
            // a modulus barely beyond the plaintext modulus
            "snug" => {
                let c = (1..20_000).map(|j| q.t + j * m).find(|c| usable(*c));
                match c {
                    Some(c) if c < 1 << 62 && !q.q.contains(&c) => {
                        q.q[i] = c;
                        if q.q.len() == 1 {
                            let c = below(1 << 60, m, |x| usable(x) && x != c).unwrap();
                            q.q.push(c);
                        }
                        true
                    }
                    _ => false,
                }
            }
            "repeat" => {
                let c = q.q[i];
                if r.chance(50) {
                    q.q.push(c);
                } else {
                    q.q.insert(r.below(q.q.len() as u64) as usize, c);
                }
                true
            }
            "composite" => match composite(&mut r, m, 62) {
                Some(c) if !q.q.contains(&c) => {
                    q.q[i] = c;
                    true
                }
                _ => false,
            },
            "pseudo" => match pseudoprime(&mut r, m) {
                Some(c) if c > 97 => {
                    // with a plaintext modulus below it, where there is one
                    if let Some(t) = below(c.min(q.t + 1), m, usable) {
                        q.t = t;
                    }
                    q.q[i] = c;
                    true
                }
                _ => false,
            },
            // prime, but without a root of unity of the full order
            "half" => {
                let b = r.range(45, 62);
                let top = (1u64 << b) - r.below(1 << 40);
                match below(top, m / 2, |x| x % m != 1 && is_prime(x)) {
                    Some(c) => {
                        q.q[i] = c;
                        true
                    }
                    None => false,
                }
            }
            "oversize" => {
                let top = if r.chance(50) { u64::MAX } else { (1u64 << 63) - r.below(1 << 60) };
                match below(top, m, is_prime) {
                    Some(c) if c >= 1 << 62 => {
                        q.q[i] = c;
                        true
                    }
                    _ => false,
                }
            }
            // the plaintext modulus at or beyond one of the others
            "below_t" => {
                if r.chance(40) {
                    q.t = *r.clone().pick(&q.q);
                } else {
                    q.t = (1..20_000).map(|j| ((q.q[i] - 1) / m + j) * m + 1).find(|c| *c < 1 << 62 && usable(*c)).unwrap_or(q.q[i]);
                    if r.chance(50) {
                        // the others beyond it
                        for (j, c) in q.q.iter_mut().enumerate() {
                            if j != i && *c <= q.t {
                                *c = below((1 << 62) - 4096 * (1 + j as u64) * m, m, usable).unwrap();
                            }
                        }
                    }
                }
                true
            }
            "t_composite" => {
                let low = *q.q.iter().min().unwrap();
                let bits = (63 - low.leading_zeros() as u64).min(40);
                let c = if r.chance(50) { pseudoprime(&mut r, m) } else { composite(&mut r, m, bits.max(14)) };
                match c {
                    Some(c) if c < low => {
                        q.t = c;
                        true
                    }
                    _ => false,
                }
            }
            "t_half" => {
                let low = *q.q.iter().min().unwrap();
                let top = if r.chance(50) { q.t + 1 } else { low - 1 };
                match below(top, m / 2, |x| x % m != 1 && is_prime(x)) {
                    Some(c) if c > 2 => {
                        q.t = c;
                        true
                    }
                    _ => false,
                }
            }
            "t_small" => {
                q.t = *r.pick(&[0, 1, 2, 3, 4]);
                true
            }
            "degree" => {
                q.n = *r.pick(&[0, 1, 2, 4, 12, 24, 48, q.n + 1, q.n - 1, 3 * q.n / 2]);
                if q.n > 0 && r.chance(60) {
                    // with moduli to match
                    let m = 2 * q.n as u64;
                    q.t = below(1 << 20, m, usable).unwrap_or(q.t);
                    for (j, c) in q.q.iter_mut().enumerate() {
                        *c = below((1 << 50) - 4096 * (1 + j as u64) * m, m, usable).unwrap();
                    }
                }
                true
            }
            "variance" => {
                q.v = *r.pick(&[0, 17, 18, 32, 100, 1 << 20]);
                true
            }
            "none" => {
                q.q.clear();
                true
            }
            _ => {
                q.q[i] = *r.pick(&[0, 1, 2, 1 << 20, 1 << 40, 3 << 30, 9, 15]);
                true
            }
        };
        if ok {
            return (kind, q);
        }
    }
}

fn due(q: &Req) -> Due {
    if matches!(q.n, 1 | 2 | 4) && (1..=16).contains(&q.v) {
        // too small for any use: refused today, not wrong if it were to work
        return Due::Open;
    }
    let ring = !q.q.is_empty() && q.q.iter().all(|x| ntt_prime(*x, q.n)) && (1..q.q.len()).all(|i| !q.q[..i].contains(&q.q[i]));
    if !ring || !ntt_prime(q.t, q.n) || q.q.iter().any(|x| *x <= q.t) || !(1..=16).contains(&q.v) {
        return Due::Refused;
    }
    if q.q.iter().chain([&q.t]).all(|x| usable(*x)) {
        Due::Works
    } else {
        Due::Open
    }
}

/// Puts parameters to use; says what went wrong.
fn exercise(q: &Req, params: &Arc<BfvParameters>, seed: u64) -> Result<u64, String> {
    let (n, t) = (q.n, q.t);
    let sk = SecretKey::generate(params);
    if sk.coeffs.len() != n || sk.coeffs.iter().any(|c| c.unsigned_abs() as usize > 2 * q.v) {
        return Err("a secret key outside its bounds".into());
    }
    if params.ciphertext_moduli != q.q || params.plaintext_modulus_u64 != t || params.degree != n {
        return Err("parameters other than the ones asked for".into());
    }
    let log = |k: usize| q.q[..k].iter().map(|x| (*x as f64).log2()).sum::<f64>();
    let lt = (2.0 * t as f64).log2();
    let (v, nf) = (q.v as f64, n as f64);
    let mut done = 0;
    for l in 0..q.q.len() {
        let lq = log(q.q.len() - l);
        if lt + (4.0 * v + 8.0).log2() + 0.1 > lq {
            continue;
        }
        let (a, b) = (values(seed % 12, seed, n, t), values(9, seed + 1, n, t));
        for simd in [false, true] {
            let enc = if simd { Encoding::SIMD } else { Encoding::Poly };
            let (ca, cb) = (sk.encrypt(&Plaintext::new(params, &a, l, enc.clone())), sk.encrypt(&Plaintext::new(params, &b, l, enc.clone())));
            let open = |c: &BfvCipherText| {
                let mut p = sk.decrypt(c);
                p.set_encoding(enc.clone());
                p.decode()
            };
            if open(&ca) != a {
                return Err(format!("level {l}: a message (slots: {simd}) came back as another"));
            }
            if open(&(&ca + &cb)) != padd(&a, &b, t) || open(&(&ca - &cb)) != psub(&a, &b, t) {
                return Err(format!("level {l}: a sum or difference (slots: {simd}) is wrong"));
            }
            // a product of two ciphertexts, where it fits many times over
            if 2.0 * lt + 3.0 * nf.log2() + 2.0 * (2.0 * v + 1.0).log2() + 8.0 < lq {
                let want: Vec<u64> = if simd { a.iter().zip(&b).map(|(x, y)| mulmod(*x, *y, t)).collect() } else { pmul(&a, &b, t) };
                if open(&(&ca * &cb)) != want {
                    return Err(format!("level {l}: a product (slots: {simd}) is wrong"));
                }
                done += 1;
            }
            // a substitution
            let ks = q.q[..q.q.len() - l].iter().map(|x| *x as f64).sum::<f64>() * nf * 2.0 * v;
            if !simd && q.q.len() - l > 1 && lt + (ks + 4.0 * v).log2() + 3.0 < lq {
                let g = GaliosKey::new(&sk, &Substitution::new(&params.q_ctxs[l], 3), l);
                if open(&g.relinearize(&ca)) != psubst(&a, 3, t) {
                    return Err(format!("level {l}: a substitution is wrong"));
                }
                done += 1;
            }
            done += 1;
        }
    }
    Ok(done)
}

/// Sizes for generated moduli; some impossible.
fn sizes(args: &[u64]) -> (Vec<usize>, usize) {
    let mut r = Rng::new(mix2(args[1], args[3]));
    let n = *r.pick(&[8, 8, 16, 32, 64, 128, 1024, 4096]);
    let k = r.range(1, 6);
    let same = r.range(10, 62) as usize;
    let style = r.below(6);
    let mut s: Vec<usize> = (0..k)
        .map(|_| match style {
            0 => same,
            1 => *r.pick(&[10, 11, 12, 13]),
            2 => *r.pick(&[62, 61, 62, 10]),
            _ => r.range(10, 62) as usize,
        })
        .collect();
    if r.chance(20) {
        let i = r.below(k) as usize;
        s[i] = *r.pick(&[0, 1, 5, 8, 9, 63, 64, 65, 1000]);
    }
    (s, n)
}

/// How many primes of a size there are for a degree, counted up to `upto`.
fn primes(size: usize, n: usize, upto: usize) -> usize {
    let m = 2 * n as u64;
    let (lo, hi) = (1u64 << (size - 1), 1u64 << size);
    let mut c = ((hi - 2) / m) * m + 1;
    let mut found = 0;
    let mut tried = 0;
    while c >= lo && c > 1 && found < upto && tried < 6000 {
        found += usable(c) as usize;
        tried += 1;
        if c < m {
            break;
        }
        c -= m;
    }
    found
}

fn op(w: &Owner, kind: &str, a: &[u64]) -> Result<String, Violation> {
    let bd = BitDecomposition { base: 1 + (a[4] % 8) as usize, l: 1 + (a[4] / 8 % 16) as usize };
    match kind {
        "good" => {
            let (n, t) = (w.tenant.cfg.n, w.tenant.cfg.t);
            let (x, y) = (values(a[0], a[1], n, t), values(a[2], a[3], n, t));
            let enc = |v: &Vec<u64>| w.sk.encrypt(&Plaintext::new(&w.tenant.params, v, 0, Encoding::Poly));
            let r = w.sk.decrypt(&(&enc(&x) + &enc(&y)));
            if *r.values != *padd(&x, &y, t) {
                return Err(Violation { class: "aftermath".into(), text: "a sum under well-formed parameters is wrong".into() });
            }
            Ok("served".into())
        }
        "req" => {
            let (_, q) = request(a);
            let params = Arc::new(BfvParameters::new(q.n, q.t, q.q.clone(), q.v, bd));
            let used = exercise(&q, &params, a[3]);
            if due(&q) == Due::Refused {
                return Err(Violation { class: "accepted".into(), text: format!("unusable parameters {q:?} were built, and using them gave {used:?}") });
            }
            match used {
                Ok(k) => Ok(format!("built, {k} results right")),
                Err(e) => Err(Violation { class: "unusable".into(), text: format!("parameters {q:?} were built but do not work: {e}") }),
            }
        }
        "ring" => {
            let (_, q) = request(a);
            let c = RqContext::new(q.q.clone(), q.n, bd);
            // whatever the plaintext modulus
            if matches!(q.n, 1 | 2 | 4) {
                return Ok("built".into());
            }
            let ok = !q.q.is_empty() && q.q.iter().all(|x| ntt_prime(*x, q.n)) && (1..q.q.len()).all(|i| !q.q[..i].contains(&q.q[i]));
            if !ok {
                return Err(Violation { class: "accepted".into(), text: format!("a ring over {:?} of degree {} was built", q.q, q.n) });
            }
            let r = RefRing::new(q.n, &q.q);
            if c.moduli_64 != q.q || c.degree != q.n || *c.rns.modulus() != r.q {
                return Err(Violation { class: "unusable".into(), text: format!("the ring over {:?} of degree {} is another one", q.q, q.n) });
            }
            Ok("built".into())
        }
        _ => {
            let (s, n) = sizes(a);
            match BfvParameters::generate_moduli(&s, n) {
                None => Ok("none".into()),
                Some(q) => {
                    let text = || format!("moduli {q:?} for sizes {s:?} and degree {n}");
                    if q.len() != s.len() {
                        return Err(Violation { class: "moduli".into(), text: format!("{}: not as many as asked for", text()) });
                    }
                    for (i, (x, b)) in q.iter().zip(&s).enumerate() {
                        if !ntt_prime(*x, n) || 64 - x.leading_zeros() as usize != *b || q[..i].contains(x) {
                            return Err(Violation { class: "moduli".into(), text: format!("{}: number {i} is repeated, of another size or unsuitable", text()) });
                        }
                    }
                    Ok(format!("{} moduli", q.len()))
                }
            }
        }
    }
}

pub fn run(plan: &Plan, cx: &mut Cx) -> Res1<()> {
    let ten = Tenant::build(&Cfg::get(plan, 0));
    let own = Arc::new(make_owner(plan, cx, 0, &ten)?);
    let jobs: Vec<(u64, JobFn<Result<String, Violation>>)> = plan
        .ops
        .iter()
        .map(|o| {
            let (w, o) = (own.clone(), o.clone());
            let f: JobFn<Result<String, Violation>> = Arc::new(move || op(&w, &o.kind, &o.args));
            (o.id, f)
        })
        .collect();
    let res = run_jobs(plan, cx, 1, jobs, false)?;
    for (op, (o, _, _)) in plan.ops.iter().zip(res) {
        cx.checks += 1;
        cx.count(&format!("op_{}", op.kind), 1);
        // what may be refused
        let (what, d) = match op.kind.as_str() {
            "good" => ("a request under well-formed parameters".to_string(), Due::Works),
            "moduli" => {
                let (s, n) = sizes(&op.args);
                let d = if s.iter().any(|b| !(10..=62).contains(b)) {
                    Due::Refused
                } else if s.iter().all(|b| primes(*b, n, s.len()) >= s.iter().filter(|x| *x == b).count()) {
                    Due::Works
                } else {
                    Due::Open
                };
                (format!("moduli of sizes {s:?} for degree {n}"), d)
            }
            _ => {
                let (k, q) = request(&op.args);
                cx.count(&format!("{}_{k}", op.kind), 1);
                let d = if op.kind == "req" {
                    due(&q)
                } else if k == "plain" || k == "tiny" || k == "snug" {
                    due(&q)
                } else {
                    Due::Open
                };
                (format!("{} {q:?} ({k})", if op.kind == "req" { "parameters" } else { "ring" }), d)
            }
        };
        match o {
            Outcome::Ok(Err(v)) => return Err(v),
            Outcome::Ok(Ok(s)) => {
                let refused = s == "none";
                if refused && d == Due::Works {
                    return viol("refused", format!("{what}: there are such moduli, and none were found"));
                }
                if !refused && op.kind == "moduli" && d == Due::Refused {
                    return viol("accepted", format!("{what}: {s}"));
                }
                cx.ev(format!("op {} ({}): {s}", op.id, op.kind));
            }
            Outcome::Panicked(m) => {
                if d == Due::Works {
                    return viol("refused", format!("op {} ({}): {what}: refused: {m}", op.id, op.kind));
                }
                cx.fired("unusable_parameters_refused", 1);
                cx.ev(format!("op {} ({}): refused", op.id, op.kind));
            }
            Outcome::EntropyFailed => unreachable!(),
        }
    }
    Ok(())
}
