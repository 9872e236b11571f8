//! What all scenarios share: parameter sets (tenants), run context with
//! counters and the event log, value generators, access to the code under test.

use crate::plan::Plan;
use crate::refm::*;
use crate::rt::{self, fnv, mix2, Rng, Stream};
use num_bigint::BigUint;
use onion_pir::sim_api::{BfvCipherText, BfvParameters, BitDecomposition, Ksk, Poly, Representation, RqContext};
use std::collections::BTreeMap;
use std::sync::Arc;

pub const SMALL_T: &[u64] = &[17, 97, 193, 257, 769, 1153, 7681, 12289, 40961, 65537, 786433, 1785857];

/// Everything needed to rebuild a parameter set.
#[derive(Clone, Debug, PartialEq)]
pub struct Cfg {
    pub n: usize,
    pub t: u64,
    pub sizes: Vec<usize>,
    /// per modulus: 0 = the largest prime of its size, else the largest prime below
    /// 2^(size-1) * (1 + u/1000); all zero = the library's own generate_moduli
    pub ub: Vec<u64>,
    pub v: usize,
    pub base: usize,
    pub l: usize,
    /// built through BfvParameters::default
    pub dflt: bool,
}

/// A prime that the library's own primality test admits as well: the test it delegates to
/// (num-bigint-dig) rejects a few primes, and parameters with those are refused when built.
pub fn usable(c: u64) -> bool {
    is_prime(c) && onion_pir::sim_api::is_prime(c)
}

pub fn gen_t(n: usize, rng: &mut Rng, max_bits: u64) -> u64 {
    let m = 2 * n as u64;
    let ok: Vec<u64> = SMALL_T.iter().copied().filter(|t| t % m == 1 && 64 - t.leading_zeros() as u64 <= max_bits).collect();
    if !ok.is_empty() && rng.chance(70) {
        return *rng.pick(&ok);
    }
    // enough candidates 1 mod 2n below the bound for one of them to be prime
    let minb = 64 - m.leading_zeros() as u64 + 5;
    for _ in 0..10_000 {
        let bits = rng.range(minb, max_bits.max(minb));
        let c = (rng.below(1 << bits) / m) * m + 1;
        if c > m && usable(c) {
            return c;
        }
    }
    panic!("no plaintext modulus for n={n}");
}

impl Cfg {
    pub fn put(&self, p: &mut Plan, idx: usize) {
        let k = |s: &str| format!("p{idx}.{s}");
        p.set(&k("n"), self.n as u64);
        p.set(&k("t"), self.t);
        p.set(&k("v"), self.v as u64);
        p.set(&k("base"), self.base as u64);
        p.set(&k("l"), self.l as u64);
        p.set(&k("dflt"), self.dflt as u64);
        p.set(&k("k"), self.sizes.len() as u64);
        for (i, s) in self.sizes.iter().enumerate() {
            p.set(&k(&format!("q{i}")), *s as u64);
            if self.ub[i] != 0 {
                p.set(&k(&format!("u{i}")), self.ub[i]);
            }
        }
    }
    pub fn get(p: &Plan, idx: usize) -> Cfg {
        let k = |s: &str| format!("p{idx}.{s}");
        let n = p.knob(&k("k")) as usize;
        Cfg {
            n: p.knob(&k("n")) as usize,
            t: p.knob(&k("t")),
            v: p.knob(&k("v")) as usize,
            base: p.knob(&k("base")) as usize,
            l: p.knob(&k("l")) as usize,
            dflt: p.knob(&k("dflt")) == 1,
            sizes: (0..n).map(|i| p.knob(&k(&format!("q{i}"))) as usize).collect(),
            ub: (0..n).map(|i| p.knob_or(&k(&format!("u{i}")), 0)).collect(),
        }
    }
    pub fn valid(&self) -> bool {
        self.n.is_power_of_two()
            && self.n >= 4
            && is_prime(self.t)
            && self.t % (2 * self.n as u64) == 1
            && !self.sizes.is_empty()
            && self.sizes.iter().all(|s| (1u64 << (s - 1)) > 2 * self.t)
            && self.ub.len() == self.sizes.len()
            && (1..=16).contains(&self.v)
    }
    pub fn moduli(&self) -> Vec<u64> {
        if self.ub.iter().all(|u| *u == 0) {
            return BfvParameters::generate_moduli(&self.sizes, self.n).expect("moduli");
        }
        let m = 2 * self.n as u64;
        let mut out: Vec<u64> = vec![];
        for (s, u) in self.sizes.iter().zip(&self.ub) {
            let half = 1u64 << (s - 1);
            let top = if *u == 0 { 2 * half - 1 } else { half + (half / 1000) * u };
            let c = (0..10_000).map(|i| ((top - 1) / m - i) * m + 1).find(|c| usable(*c) && !out.contains(c)).expect("a usable modulus");
            out.push(c);
        }
        out
    }
    pub fn describe(&self) -> String {
        format!("N={} t={} q={:?} bits variance={}", self.n, self.t, self.sizes, self.v)
    }
}

/// Generates a parameter set. `k` moduli between the bounds, `maxn` the largest degree.
pub fn gen_cfg(rng: &mut Rng, ks: (u64, u64), ns: &[usize], tbits: u64) -> Cfg {
    loop {
        let n = *rng.pick(ns);
        let k = rng.range(ks.0, ks.1) as usize;
        let style = rng.below(4);
        let t = gen_t(n, rng, tbits);
        let tb = 64 - t.leading_zeros() as u64;
        let floor = if rng.chance(15) { 18 } else { 30 };
        let lo = (tb + 2).max(floor).max(64 - (2 * n as u64).leading_zeros() as u64 + 12);
        if lo > 60 {
            continue;
        }
        let base = rng.range(lo, 62) as usize;
        let sizes: Vec<usize> = (0..k)
            .map(|_| match style {
                0 => 62,
                1 => base,
                _ => rng.range(lo, 62) as usize,
            })
            .collect();
        let v = if rng.chance(30) { 10 } else { rng.range(1, 16) as usize };
        let dflt = t == 1153 && style == 0 && v == 10;
        // moduli that are not just below a power of two
        let mode = if dflt { 0 } else { rng.below(5) };
        let same = rng.range(1, 999);
        let ub: Vec<u64> = (0..k)
            .map(|_| match mode {
                0 | 1 => 0,
                2 => same,
                3 => rng.range(1, 999),
                _ => *rng.pick(&[0, 1, 30, 500, 900]),
            })
            .collect();
        let c = Cfg { n, t, sizes, ub, v, base: rng.range(1, 8) as usize, l: rng.range(1, 16) as usize, dflt };
        if c.valid() {
            return c;
        }
    }
}

/// A parameter set related to another one: what a session that follows it may use.
pub fn vary(rng: &mut Rng, c: &Cfg) -> Cfg {
    for _ in 0..50 {
        let mut d = c.clone();
        d.dflt = false;
        match rng.below(6) {
            0 => return c.clone(),
            1 => {
                // other moduli of the same count
                for i in 0..d.sizes.len() {
                    d.sizes[i] = rng.range(45, 62) as usize;
                    d.ub[i] = if rng.chance(50) { 0 } else { rng.range(1, 999) };
                }
            }
            2 => d.ub.iter_mut().for_each(|u| *u = rng.range(1, 999)),
            3 => d.t = gen_t(d.n, rng, 26),
            4 => {
                d.n = *rng.pick(&[8, 16, 32, 64]);
                d.t = gen_t(d.n, rng, 26);
            }
            _ => d.v = rng.range(1, 16) as usize,
        }
        if d.valid() && d != *c {
            return d;
        }
    }
    c.clone()
}

pub struct Tenant {
    pub cfg: Cfg,
    pub params: Arc<BfvParameters>,
    /// reference ring of each level
    pub rings: Vec<RefRing>,
}

impl Tenant {
    pub fn build(cfg: &Cfg) -> Arc<Tenant> {
        let bd = BitDecomposition { base: cfg.base, l: cfg.l };
        let params = if cfg.dflt {
            BfvParameters::default(cfg.sizes.len(), cfg.n, bd)
        } else {
            let moduli = cfg.moduli();
            BfvParameters::new(cfg.n, cfg.t, moduli, cfg.v, bd)
        };
        let moduli = params.ciphertext_moduli.clone();
        let k = moduli.len();
        let rings = (0..k).map(|l| RefRing::new(cfg.n, &moduli[..k - l])).collect();
        Arc::new(Tenant { cfg: cfg.clone(), params: Arc::new(params), rings })
    }
    pub fn levels(&self) -> usize {
        self.rings.len()
    }
    /// A ciphertext whose noise is at most `b` decrypts at this level with margin to spare.
    pub fn fits(&self, level: usize, b: f64) -> bool {
        let q = self.rings[level].log2q();
        b.is_finite() && ((b + 4.0) * 2.0 * self.cfg.t as f64).log2() + 1e-6 < q - 0.01
    }
    pub fn e_ks(&self, level: usize) -> f64 {
        let r = &self.rings[level];
        r.moduli.iter().map(|q| *q as f64).sum::<f64>() * self.cfg.n as f64 * 2.0 * self.cfg.v as f64
    }
    pub fn fresh(&self) -> f64 {
        2.0 * self.cfg.v as f64 + 2.0
    }
}

pub fn res_of(p: &Poly) -> Res {
    let mut q = p.clone();
    q.change_representation(Representation::PowerBasis);
    q.coefficients().outer_iter().map(|r| r.iter().copied().collect()).collect()
}

pub fn poly_of(ctx: &Arc<RqContext>, v: &[BigUint]) -> Poly {
    let mut p = Poly::try_from_bigint(ctx, v);
    p.change_representation(Representation::Ntt);
    p
}

pub fn dig_poly(p: &Poly) -> u64 {
    let mut h = match p.representation {
        Representation::PowerBasis => 1,
        Representation::Ntt => 2,
        Representation::NttShoup => 3,
    };
    for m in &p.context.moduli_64 {
        h = fnv(h, *m);
    }
    for x in p.coefficients().iter() {
        h = fnv(h, *x);
    }
    h
}
pub fn dig_ct(c: &BfvCipherText) -> u64 {
    c.cts.iter().fold(fnv(7, c.level as u64), |h, p| fnv(h, dig_poly(p)))
}
pub fn dig_ksk(k: &Ksk) -> u64 {
    k.c0.iter().chain(k.c1.iter()).fold(11, |h, p| fnv(h, dig_poly(p)))
}
pub fn dig_vec(v: &[u64]) -> u64 {
    v.iter().fold(fnv(13, v.len() as u64), |h, x| fnv(h, *x))
}

/// A message vector from two integers; boundary-heavy on purpose.
pub fn values(kind: u64, seed: u64, n: usize, t: u64) -> Vec<u64> {
    let mut r = Rng::new(seed);
    match kind % 12 {
        0 => vec![0; n],
        1 => vec![t - 1; n],
        2 => {
            let mut v = vec![0; n];
            v[r.below(n as u64) as usize] = *r.pick(&[1, t - 1, t / 2, t / 2 + 1]);
            v
        }
        3 => (0..n).map(|i| if i % 2 == 0 { t - 1 } else { 0 }).collect(),
        4 => (0..n).map(|_| *r.pick(&[0, 1, t - 1, t / 2, t / 2 + 1])).collect(),
        5 => (0..n as u64).map(|i| (i + seed) % t).collect(),
        6 => vec![r.below(t); n],
        7 => (0..n).map(|_| if r.chance(10) { r.below(t) } else { 0 }).collect(),
        _ => (0..n).map(|_| r.below(t)).collect(),
    }
}

/// Small multipliers, so that histories get long before the noise budget is spent.
pub fn small_values(kind: u64, seed: u64, n: usize, t: u64) -> Vec<u64> {
    let mut r = Rng::new(seed);
    let mut v = vec![0u64; n];
    match kind % 6 {
        0 => v[0] = 1 + r.below(3),
        1 => v[r.below(n as u64) as usize] = 1,
        2 => {
            for _ in 0..3 {
                v[r.below(n as u64) as usize] = r.below(4.min(t));
            }
        }
        3 => v[n - 1] = 1,
        4 => v.iter_mut().for_each(|x| *x = r.below(2)),
        _ => return values(seed, seed, n, t),
    }
    v
}

// ---------------------------------------------------------------- run context

pub struct Violation {
    pub class: String,
    pub text: String,
}

/// Counters, probes and the event log of one run.
#[derive(Default)]
pub struct Cx {
    pub stats: BTreeMap<String, u64>,
    pub faults: BTreeMap<String, u64>,
    pub log: Vec<String>,
    pub log_hash: u64,
    pub digests: Vec<(u64, u64)>,
    pub sim_us: u64,
    pub sched_trace: u64,
    pub checks: u64,
}

impl Cx {
    pub fn count(&mut self, k: &str, n: u64) {
        *self.stats.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn fired(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.faults.entry(k.to_string()).or_insert(0) += n;
        }
    }
    pub fn ev(&mut self, s: String) {
        for b in s.as_bytes() {
            self.log_hash = fnv(self.log_hash, *b as u64);
        }
        self.log.push(s);
    }
    pub fn take_stream(&mut self, s: &Stream) {
        for (k, n) in &s.fired {
            self.fired(k, *n);
        }
    }
    pub fn take_sched(&mut self, s: &mut rt::Sched) {
        self.sched_trace = fnv(self.sched_trace, s.trace);
        self.count("sched_decisions", s.decisions);
        self.fired("preempt_at_allocation", s.preempted[rt::Y_ALLOC as usize]);
        self.fired("preempt_at_entropy_draw", s.preempted[rt::Y_DRAW as usize]);
        self.fired("preempt_at_basic_block", s.preempted[rt::Y_STEP as usize]);
        self.fired("preempt_at_lock_release", s.preempted[rt::Y_WAKE as usize]);
        self.fired("wait_on_lock", s.preempted[rt::Y_LOCK as usize]);
        self.fired("stalled_thread", s.stalls);
        self.fired("clock_jump", s.jumps);
    }
}

pub type Res1<T> = Result<T, Violation>;

pub fn viol<T>(class: &str, text: String) -> Res1<T> {
    Err(Violation { class: class.to_string(), text })
}

/// The entropy stream of an operation: keyed by the plan, the operation and the
/// attempt, so that no other operation or interleaving changes it.
pub fn stream_for(p: &Plan, op: u64, attempt: u64) -> Stream {
    let mut s = Stream::new(mix2(mix2(p.knob_or("entropy", p.seed), op), attempt));
    for f in p.faults_of("entropy", op) {
        // op, start, length, pattern
        s.bursts.push((f.args[1], f.args[2], f.args[3]));
    }
    if attempt == 0 {
        if let Some(f) = p.faults_of("entropy_fail", op).next() {
            s.fail_at = Some(f.args[1]);
        }
    }
    s
}

/// Faults on the entropy source of an operation; `rate` in percent.
pub fn gen_entropy_faults(p: &mut Plan, rng: &mut Rng, op: u64, cfg: &Cfg, rate: u64, fail_rate: u64) {
    if rng.chance(rate) {
        // offsets that matter: start of the seeds, start of the errors
        let k = cfg.sizes.len() as u64;
        let err = (cfg.n * 4 * cfg.v).div_ceil(64) as u64 * 8;
        let start = *rng.pick(&[0, 0, 32, 32, 32 * k, 32 * k + err, 8 * rng.clone().below(64)]);
        let len = *rng.pick(&[8, 32, err, 4 * err, 1 << 20, 1 << 20]);
        // patterns 0..4 are generic, 100 + v drives the binomial sampler to its extremes
        let pat = if rng.chance(60) { 100 + cfg.v as u64 + 100 * rng.below(3) } else { rng.below(5) };
        p.fault("entropy", vec![op, start, len, pat]);
    }
    if rng.chance(fail_rate) {
        let at = match rng.below(3) {
            0 => rng.below(32),
            1 => 32 + rng.below(64),
            _ => rng.below(4096),
        };
        p.fault("entropy_fail", vec![op, at]);
    }
}

// ---------------------------------------------------------------- batches of jobs

pub type JobFn<R> = Arc<dyn Fn() -> R + Send + Sync>;

/// Runs jobs on simulated threads under the plan's schedule. A job whose entropy
/// fails is retried with the next stream; the attempt that counted is returned.
pub fn run_jobs<R: Send + 'static>(
    plan: &Plan,
    cx: &mut Cx,
    salt: u64,
    jobs: Vec<(u64, JobFn<R>)>,
    keep_log: bool,
) -> Res1<Vec<(rt::Outcome<R>, Stream, u64)>> {
    let mut out: Vec<Option<(rt::Outcome<R>, Stream, u64)>> = jobs.iter().map(|_| None).collect();
    let mut attempt: Vec<u64> = jobs.iter().map(|j| plan.knob_or(&format!("att.{}", j.0), 0)).collect();
    let mut stall: Vec<Option<u64>> = jobs.iter().map(|j| plan.faults_of("stall", j.0).next().map(|f| f.args[1])).collect();
    let mut sched = rt::Sched::new(plan.knob_or("workers", 1) as usize, mix2(plan.knob_or("sched", plan.seed), salt), plan.knob_or("preempt", 0));
    let submit = |sched: &mut rt::Sched, i: usize, att: u64| {
        let mut s = stream_for(plan, jobs[i].0, att);
        s.keep_log = keep_log;
        let f = jobs[i].1.clone();
        sched.submit(i, move || rt::with_stream(s, move || f()));
    };
    for i in 0..jobs.len() {
        submit(&mut sched, i, attempt[i]);
    }
    let mut left = jobs.len();
    let mut steps = 0u64;
    while left > 0 {
        steps += 1;
        if steps > 3_000_000 {
            return viol("no-progress", "callers made no progress within the step budget".into());
        }
        match sched.step() {
            rt::Step::Progress => {
                for j in sched.in_flight() {
                    if let Some(c) = stall[j] {
                        stall[j] = if c == 0 { None } else { Some(c - 1) };
                        if c == 0 {
                            sched.stall(j);
                        }
                    }
                }
            }
            rt::Step::Idle => {
                if !sched.drain() {
                    return viol("no-progress", "an operation never completed".into());
                }
            }
            rt::Step::Deadlock => return viol("deadlock", "all callers wait for a lock".into()),
            rt::Step::Done(i, any) => {
                let (o, s) = *any.downcast::<(rt::Outcome<R>, Stream)>().expect("job result");
                cx.take_stream(&s);
                if let rt::Outcome::EntropyFailed = o {
                    attempt[i] += 1;
                    cx.count("retries", 1);
                    if attempt[i] > 3 {
                        return viol("retry", format!("operation {} kept failing after the entropy source recovered", jobs[i].0));
                    }
                    submit(&mut sched, i, attempt[i]);
                } else {
                    out[i] = Some((o, s, attempt[i]));
                    left -= 1;
                }
            }
        }
    }
    cx.take_sched(&mut sched);
    sched.retire();
    Ok(out.into_iter().map(|x| x.unwrap()).collect())
}

/// The result of a job that must not panic.
pub fn must<R>(o: rt::Outcome<R>, what: &str) -> Res1<R> {
    match o {
        rt::Outcome::Ok(r) => Ok(r),
        rt::Outcome::EntropyFailed => viol("retry", format!("{what}: entropy failure came through")),
        rt::Outcome::Panicked(m) => viol("panic", format!("{what} panicked: {m}")),
    }
}
