//! The register machine: several callers with their own registers of ciphertexts
//! run homomorphic operations of the real library on simulated threads; every
//! result is compared with the plaintext model and with the exact noise.

use crate::plan::{Op, Plan};
use crate::refm::*;
use crate::rt::{self, mix2, Outcome, Rng, Sched, Step, Stream};
use crate::world::*;
use num_bigint::BigUint;
use num_traits::{FromPrimitive, ToPrimitive, Zero};
use onion_pir::sim_api::{
    multiply_with_strategy, omr_inner_product, BfvCipherText, Encoding, GaliosKey, Ksk, PirEvalKey, Plaintext, Poly, RelinearizationKey, Representation, RgswCt,
    RqContext, SecretKey, Substitution,
};
use std::collections::{BTreeMap, VecDeque};
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq)]
pub struct Flags {
    pub dec: bool,
    pub noise: bool,
    pub measure: bool,
    pub raw: bool,
    pub digests: bool,
}

#[derive(Clone)]
pub struct Reg {
    pub ct: Arc<BfvCipherText>,
    pub m: Vec<u64>,
    /// slot view of m, for registers that have only seen slot-wise operations
    pub slots: Option<Vec<u64>>,
    pub b: f64,
    pub level: usize,
}

/// A party's secret key with the norms of its powers, as the reference sees it.
#[derive(Clone)]
pub struct Owner {
    pub tenant: Arc<Tenant>,
    pub sk: Arc<SecretKey>,
    pub s: Vec<i64>,
    pub pn: Vec<f64>,
}

impl Owner {
    pub fn new(tenant: &Arc<Tenant>, sk: SecretKey) -> Owner {
        let s = sk.coeffs.to_vec();
        let mut pn = vec![1.0];
        let mut pw = s.clone();
        for i in 0..5 {
            pn.push(norm1(&pw));
            if i < 4 {
                if pw.iter().map(|x| x.unsigned_abs()).max().unwrap() as f64 * norm1(&s) > 2f64.powi(50) {
                    pn.resize(6, f64::INFINITY);
                    break;
                }
                pw = imul(&pw, &s);
            }
        }
        Owner { tenant: tenant.clone(), sk: Arc::new(sk), s, pn }
    }
    pub fn pnsum(&self, comps: usize) -> f64 {
        self.pn.iter().take(comps).sum()
    }
    /// worst-case noise of one expansion, given the packed ciphertext's noise
    pub fn unpack_bound(&self, b: f64) -> f64 {
        b + (self.tenant.cfg.n as f64 - 1.0) * self.tenant.e_ks(0)
    }
    pub fn mul_bound(&self, level: usize, c1: usize, b1: f64, c2: usize, b2: f64) -> f64 {
        let t = self.tenant.cfg.t as f64;
        let n = self.tenant.cfg.n as f64;
        let k1 = self.pnsum(c1) + 2.0;
        let k2 = self.pnsum(c2) + 2.0;
        let q = 2f64.powf(self.tenant.rings[level].log2q());
        t * n * (b1 * (1.0 + k2) + b2 * (1.0 + k1)) + t * n * b1 * b2 / q + self.pnsum(c1 + c2 - 1) + 1.0
    }
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum KeyId {
    Gk(usize, u64),
    Rlk(usize),
    Ek,
    Sk(u64),
}

#[derive(Clone)]
enum Key {
    Gk(Arc<GaliosKey>),
    Rlk(Arc<RelinearizationKey>),
    Ek(Arc<PirEvalKey>),
    /// coefficients of a secret key a session generated
    Sk(Vec<i64>),
}

struct Actor {
    own: Owner,
    regs: Vec<Reg>,
    keys: BTreeMap<KeyId, Key>,
}

/// What the model says about one result.
enum Expect {
    Msg { m: Vec<u64>, slots: Option<Vec<u64>>, b: f64, level: usize, comps: usize },
    /// the exact phase, up to the bound
    Raw { target: Res, b: f64, level: usize },
}

struct JobOut {
    cts: Vec<BfvCipherText>,
    dec: Vec<Option<(Vec<u64>, Option<Vec<u64>>, usize)>>,
    meas: Vec<Option<usize>>,
    keys: Vec<(KeyId, Key)>,
    opnd_ok: bool,
}

type Body = Arc<dyn Fn(&mut Vec<(KeyId, Key)>) -> Vec<BfvCipherText> + Send + Sync>;

struct Prep {
    body: Body,
    expect: Vec<Expect>,
    /// registers that replace / follow
    keep: bool,
    opnds: Vec<Arc<BfvCipherText>>,
    note: String,
    /// exact check of modulus switching: (source, dropped product)
    switch_from: Option<(Arc<BfvCipherText>, usize)>,
}

fn ctx(a: &Owner, level: usize) -> Arc<RqContext> {
    a.tenant.params.q_ctxs[level].clone()
}

fn get_gk(keys: &BTreeMap<KeyId, Key>, new: &mut Vec<(KeyId, Key)>, own: &Owner, level: usize, k: u64) -> Arc<GaliosKey> {
    let id = KeyId::Gk(level, k);
    if let Some(Key::Gk(g)) = keys.get(&id) {
        return g.clone();
    }
    let s = Substitution::new(&ctx(own, level), k as usize);
    let g = Arc::new(GaliosKey::new(&own.sk, &s, level));
    new.push((id, Key::Gk(g.clone())));
    g
}
fn get_rlk(keys: &BTreeMap<KeyId, Key>, new: &mut Vec<(KeyId, Key)>, own: &Owner, level: usize) -> Arc<RelinearizationKey> {
    let id = KeyId::Rlk(level);
    if let Some(Key::Rlk(g)) = keys.get(&id) {
        return g.clone();
    }
    let g = Arc::new(RelinearizationKey::new(&own.sk, level));
    new.push((id, Key::Rlk(g.clone())));
    g
}
fn get_ek(keys: &BTreeMap<KeyId, Key>, new: &mut Vec<(KeyId, Key)>, own: &Owner) -> Arc<PirEvalKey> {
    if let Some(Key::Ek(g)) = keys.get(&KeyId::Ek) {
        return g.clone();
    }
    let g = Arc::new(PirEvalKey::build(&own.sk, &own.tenant.params));
    new.push((KeyId::Ek, Key::Ek(g.clone())));
    g
}

fn ntt(mut p: Poly) -> Poly {
    p.change_representation(Representation::Ntt);
    p
}

fn signed_poly(c: &Arc<RqContext>, v: &[i64]) -> Poly {
    ntt(Poly::try_from_vec_i64(c, v))
}

fn to_t(v: &[i64], t: u64) -> Vec<u64> {
    v.iter().map(|x| (*x as i128).rem_euclid(t as i128) as u64).collect()
}

fn ct_of(own: &Owner, level: usize, c0: Poly, c1: Poly) -> BfvCipherText {
    BfvCipherText { params: own.tenant.params.clone(), cts: vec![c0, c1], level }
}

/// rotation of both rows to the left by j
pub fn rotate_slots(v: &[u64], j: usize) -> Vec<u64> {
    let h = v.len() / 2;
    (0..v.len()).map(|i| if i < h { v[(i + j) % h] } else { v[h + (i - h + j) % h] }).collect()
}
pub fn swap_rows(v: &[u64]) -> Vec<u64> {
    let h = v.len() / 2;
    (0..v.len()).map(|i| if i < h { v[i + h] } else { v[i - h] }).collect()
}

impl Actor {
    fn reg(&self, i: u64) -> Option<&Reg> {
        if self.regs.is_empty() {
            return None;
        }
        Some(&self.regs[(i % self.regs.len() as u64) as usize])
    }
    /// the register closest after `i` that satisfies `f`
    fn reg_where(&self, i: u64, f: impl Fn(&Reg) -> bool) -> Option<&Reg> {
        let n = self.regs.len();
        (0..n).map(|d| &self.regs[(i as usize % n + d) % n]).find(|r| f(r))
    }

    /// Resolves an operation against the registers. None: not applicable or over budget.
    fn prepare(&self, op: &Op) -> Option<Prep> {
        let own = self.own.clone();
        let ten = own.tenant.clone();
        let cfg = ten.cfg.clone();
        let (n, t) = (cfg.n, cfg.t);
        let keys = self.keys.clone();
        let a = |i: usize| op.args.get(i).copied().unwrap_or(0);
        let msg = |m: Vec<u64>, slots: Option<Vec<u64>>, b: f64, level: usize, comps: usize| Expect::Msg { m, slots, b, level, comps };
        let one = |body: Body, e: Expect, opnds: Vec<Arc<BfvCipherText>>, note: String| {
            Some(Prep { body, expect: vec![e], keep: true, opnds, note, switch_from: None })
        };
        let fits = |level: usize, b: f64| ten.fits(level, b);
        match op.kind.as_str() {
            // level, encoding, value kind, value seed, length selector
            "enc" => {
                let level = (a(0) % ten.levels() as u64) as usize;
                let simd = a(1) % 2 == 1;
                let mut v = values(a(2), a(3), n, t);
                if !simd {
                    let len = match a(4) % 4 {
                        0 => 1 + (a(3) % n as u64) as usize,
                        _ => n,
                    };
                    v.truncate(len);
                }
                if !fits(level, ten.fresh()) {
                    return None;
                }
                let params = ten.params.clone();
                let enc = if simd { Encoding::SIMD } else { Encoding::Poly };
                let mut m = v.clone();
                m.resize(n, 0);
                let slots = if simd { Some(m.clone()) } else { None };
                // the coefficient view of slot values is the encoder's own; the slot
                // oracle does not depend on it
                let m = if simd { Plaintext::new(&params, &v, level, Encoding::SIMD).values.to_vec() } else { m };
                let sk = own.sk.clone();
                let body: Body = Arc::new(move |_| {
                    let pt = Plaintext::new(&params, &v, level, enc.clone());
                    vec![sk.encrypt(&pt)]
                });
                one(body, msg(m, slots, ten.fresh(), level, 2), vec![], format!("level {level} simd {simd}"))
            }
            "add" | "sub" => {
                let r = self.reg(a(0))?.clone();
                let s = self.reg_where(a(1), |x| x.level == r.level)?.clone();
                let sub = op.kind == "sub";
                let m = if sub { psub(&r.m, &s.m, t) } else { padd(&r.m, &s.m, t) };
                let slots = match (&r.slots, &s.slots) {
                    (Some(x), Some(y)) => Some(if sub { psub(x, y, t) } else { padd(x, y, t) }),
                    _ => None,
                };
                let b = r.b + s.b;
                if !fits(r.level, b) {
                    return None;
                }
                let comps = r.ct.cts.len().max(s.ct.cts.len());
                let (x, y) = (r.ct.clone(), s.ct.clone());
                let body: Body = Arc::new(move |_| vec![if sub { &*x - &*y } else { &*x + &*y }]);
                one(body, msg(m, slots, b, r.level, comps), vec![r.ct, s.ct], format!("comps {comps} level {}", r.level))
            }
            "addpt" | "mulpt" => {
                let r = self.reg(a(0))?.clone();
                let mulp = op.kind == "mulpt";
                let v = if mulp && a(3) % 4 != 0 { small_values(a(1), a(2), n, t) } else { values(a(1), a(2), n, t) };
                let simd = r.slots.is_some() && a(4) % 2 == 0;
                let params = ten.params.clone();
                let level = r.level;
                let pt = Plaintext::new(&params, &v, level, if simd { Encoding::SIMD } else { Encoding::Poly });
                let pv = pt.values.to_vec();
                let m = if mulp { pmul(&r.m, &pv, t) } else { padd(&r.m, &pv, t) };
                let slots = match (&r.slots, simd) {
                    (Some(x), true) => Some(if mulp { x.iter().zip(&v).map(|(p, q)| mulmod(*p, *q, t)).collect() } else { padd(x, &v, t) }),
                    _ => None,
                };
                let b = if mulp { r.b * norm1u(&pv).max(1.0) } else { r.b + 2.0 };
                if !fits(level, b) {
                    return None;
                }
                let comps = r.ct.cts.len();
                let x = r.ct.clone();
                let body: Body = Arc::new(move |_| {
                    if mulp {
                        vec![&*x * &pt]
                    } else {
                        vec![&*x + &pt.to_poly()]
                    }
                });
                one(body, msg(m, slots, b, level, comps), vec![r.ct], format!("comps {comps} level {level} simd {simd}"))
            }
            "mulpoly" => {
                let r = self.reg(a(0))?.clone();
                let mut g = Rng::new(a(2));
                let v: Vec<i64> = small_values(a(1), a(2), n, t).iter().map(|x| if g.chance(50) { -(*x as i64) } else { *x as i64 }).collect();
                let m = pmul(&r.m, &to_t(&v, t), t);
                let b = r.b * norm1(&v).max(1.0);
                if !fits(r.level, b) {
                    return None;
                }
                let comps = r.ct.cts.len();
                let p = signed_poly(&ctx(&own, r.level), &v);
                let x = r.ct.clone();
                let body: Body = Arc::new(move |_| vec![&*x * &p]);
                one(body, msg(m, None, b, r.level, comps), vec![r.ct], format!("comps {comps} level {}", r.level))
            }
            "mulint" => {
                let r = self.reg(a(0))?.clone();
                let k = match a(1) % 6 {
                    0 => 0,
                    1 => 1,
                    2 => t,
                    3 => u64::MAX,
                    4 => 2 + a(2) % 1000,
                    _ => a(2) >> 20,
                };
                let neg = a(3) % 2 == 1 && k != 0;
                let q = &ten.rings[r.level].q;
                let big = if neg { q - BigUint::from(k) % q } else { BigUint::from(k) };
                let big = if a(3) % 3 == 2 { big + q } else { big };
                let mut m = pscale(&r.m, k % t, t);
                if neg {
                    m = psub(&vec![0; n], &m, t);
                }
                let slots = r.slots.as_ref().map(|x| {
                    let y = pscale(x, k % t, t);
                    if neg {
                        psub(&vec![0; n], &y, t)
                    } else {
                        y
                    }
                });
                let b = r.b * (k as f64).max(1.0);
                if !fits(r.level, b) {
                    return None;
                }
                let comps = r.ct.cts.len();
                let x = r.ct.clone();
                let body: Body = Arc::new(move |_| vec![&*x * &big]);
                one(body, msg(m, slots, b, r.level, comps), vec![r.ct], format!("comps {comps} neg {neg}"))
            }
            "inner" => {
                let r0 = self.reg(a(0))?.clone();
                let cnt = if a(5) % 3 == 0 { 1 + (a(1) % 13) as usize } else { 1 + (a(1) % 4) as usize };
                let mut m = vec![0; n];
                let mut b = 0.0;
                let mut cts = vec![];
                let mut polys = vec![];
                let mut comps = 2;
                for i in 0..cnt {
                    let r = self.reg_where(a(2).wrapping_add(i as u64 * 7), |x| x.level == r0.level)?.clone();
                    let v = small_values(a(3).wrapping_add(i as u64), mix2(a(4), i as u64), n, t);
                    m = padd(&m, &pmul(&r.m, &v, t), t);
                    b += r.b * norm1u(&v).max(1.0);
                    comps = comps.max(r.ct.cts.len());
                    cts.push((*r.ct).clone());
                    polys.push(ntt(Poly::try_from_vec_u64(&ctx(&own, r0.level), &v)));
                }
                if !fits(r0.level, b) {
                    return None;
                }
                let body: Body = Arc::new(move |_| vec![omr_inner_product(&cts, &polys)]);
                one(body, msg(m, None, b, r0.level, comps), vec![], format!("terms {cnt} comps {comps}"))
            }
            "mul" => {
                let r = self.reg(a(0))?.clone();
                let s = self.reg_where(a(1), |x| x.level == r.level)?.clone();
                let (c1, c2) = (r.ct.cts.len(), s.ct.cts.len());
                if c1 + c2 - 1 > 4 {
                    return None;
                }
                let b = own.mul_bound(r.level, c1, r.b, c2, s.b);
                if !fits(r.level, b) {
                    return None;
                }
                let m = pmul(&r.m, &s.m, t);
                let slots = match (&r.slots, &s.slots) {
                    (Some(x), Some(y)) => Some(x.iter().zip(y).map(|(p, q)| mulmod(*p, *q, t)).collect()),
                    _ => None,
                };
                let (x, y) = (r.ct.clone(), s.ct.clone());
                let body: Body = Arc::new(move |_| vec![&*x * &*y]);
                one(body, msg(m, slots, b, r.level, c1 + c2 - 1), vec![r.ct, s.ct], format!("{c1}x{c2} level {}", r.level))
            }
            "mulrelin" => {
                let r = self.reg_where(a(0), |x| x.ct.cts.len() == 2)?.clone();
                let s = self.reg_where(a(1), |x| x.ct.cts.len() == 2 && x.level == r.level)?.clone();
                let b = own.mul_bound(r.level, 2, r.b, 2, s.b) + ten.e_ks(r.level);
                if !fits(r.level, b) {
                    return None;
                }
                let m = pmul(&r.m, &s.m, t);
                let slots = match (&r.slots, &s.slots) {
                    (Some(x), Some(y)) => Some(x.iter().zip(y).map(|(p, q)| mulmod(*p, *q, t)).collect()),
                    _ => None,
                };
                let (x, y) = (r.ct.clone(), s.ct.clone());
                let level = r.level;
                let body: Body = Arc::new(move |new| {
                    let rlk = get_rlk(&keys, new, &own, level);
                    vec![multiply_with_strategy(&x, &y, &rlk)]
                });
                one(body, msg(m, slots, b, level, 2), vec![r.ct, s.ct], format!("level {level}"))
            }
            "relin" => {
                let r = self.reg_where(a(0), |x| x.ct.cts.len() == 3)?.clone();
                let b = r.b + ten.e_ks(r.level);
                if !fits(r.level, b) {
                    return None;
                }
                let level = r.level;
                let x = r.ct.clone();
                let pb = a(1) % 2 == 0;
                let body: Body = Arc::new(move |new| {
                    let rlk = get_rlk(&keys, new, &own, level);
                    let mut c2 = x.cts[2].clone();
                    if pb {
                        c2.change_representation(Representation::PowerBasis);
                    }
                    let (d0, d1) = rlk.relinearize_poly(&c2);
                    vec![ct_of(&own, level, &x.cts[0] + &d0, &x.cts[1] + &d1)]
                });
                one(body, msg(r.m.clone(), r.slots.clone(), b, level, 2), vec![r.ct], format!("level {level}"))
            }
            // register, kind of automorphism, amount
            "gal" => {
                if ten.params.ciphertext_moduli.len() < 2 {
                    return None;
                }
                let r = self.reg_where(a(0), |x| x.ct.cts.len() == 2)?.clone();
                let b = r.b + ten.e_ks(r.level);
                if !fits(r.level, b) {
                    return None;
                }
                let m2 = 2 * n as u64;
                let (k, what) = match a(1) % 4 {
                    0 => {
                        let j = a(2) % (n as u64 / 2);
                        (powmod(3, j, m2), format!("rotate {j}"))
                    }
                    1 => (m2 - 1, "swap rows".to_string()),
                    2 => ((2 * (a(2) % n as u64) + 1) % m2, "any".to_string()),
                    _ => {
                        // the expansion's exponents
                        let i = a(2) % (63 - (n as u64).leading_zeros() as u64);
                        ((n as u64 >> i) + 1, "expansion".to_string())
                    }
                };
                let m = psubst(&r.m, k, t);
                let slots = r.slots.as_ref().and_then(|x| slots_under(x, k));
                let level = r.level;
                let x = r.ct.clone();
                // some callers pass an unreduced exponent
                let kk = if a(3) % 8 == 7 { k + m2 } else { k };
                let body: Body = Arc::new(move |new| {
                    let g = get_gk(&keys, new, &own, level, kk);
                    vec![g.relinearize(&x)]
                });
                one(body, msg(m, slots, b, level, 2), vec![r.ct], format!("{what} k={k} level {level}"))
            }
            // register, selector kind, selector seed, api
            "ext" => {
                let r = self.reg_where(a(0), |x| x.ct.cts.len() == 2)?.clone();
                let v = small_values(a(1), a(2), n, t);
                let b = r.b * norm1u(&v).max(1.0) + 2.0 * ten.e_ks(r.level);
                if !fits(r.level, b) {
                    return None;
                }
                let level = r.level;
                let mut regs = vec![r];
                // the same key applied to several ciphertexts in turn
                if a(4) % 3 == 0 {
                    let s = self.reg_where(a(5), |x| x.ct.cts.len() == 2 && x.level == level)?.clone();
                    let f = regs[0].clone();
                    regs.push(s);
                    regs.push(f);
                }
                let mut expect = vec![];
                for r in &regs {
                    let b = r.b * norm1u(&v).max(1.0) + 2.0 * ten.e_ks(level);
                    if !fits(level, b) {
                        return None;
                    }
                    expect.push(msg(pmul(&r.m, &v, t), None, b, level, 2));
                }
                let xs: Vec<Arc<BfvCipherText>> = regs.iter().map(|r| r.ct.clone()).collect();
                let opnds = xs.clone();
                let via_poly = a(3) % 2 == 1;
                let body: Body = Arc::new(move |_| {
                    let g = if via_poly {
                        RgswCt::encrypt_poly(&own.sk, &ntt(Poly::try_from_vec_u64(&ctx(&own, level), &v)))
                    } else {
                        RgswCt::encrypt(&own.sk, &Plaintext::new(&own.tenant.params, &v, level, Encoding::Poly))
                    };
                    xs.iter()
                        .map(|x| {
                            let (c0, c1) = RgswCt::external_product(&g, x);
                            ct_of(&own, level, c0, c1)
                        })
                        .collect()
                });
                Some(Prep { body, expect, keep: true, opnds, note: format!("level {level} poly api {via_poly} times {}", regs.len()), switch_from: None })
            }
            // selector with negative coefficients, through encrypt_poly
            "extneg" => {
                let r = self.reg_where(a(0), |x| x.ct.cts.len() == 2)?.clone();
                let mut g = Rng::new(a(2));
                let v: Vec<i64> = small_values(a(1), a(2), n, t).iter().map(|x| if g.chance(60) { -(*x as i64) } else { *x as i64 }).collect();
                let b = r.b * norm1(&v).max(1.0) + 2.0 * ten.e_ks(r.level);
                if !fits(r.level, b) {
                    return None;
                }
                let m = pmul(&r.m, &to_t(&v, t), t);
                let level = r.level;
                let x = r.ct.clone();
                let body: Body = Arc::new(move |_| {
                    let g = RgswCt::encrypt_poly(&own.sk, &signed_poly(&ctx(&own, level), &v));
                    let (c0, c1) = RgswCt::external_product(&g, &x);
                    vec![ct_of(&own, level, c0, c1)]
                });
                one(body, msg(m, None, b, level, 2), vec![r.ct], format!("level {level}"))
            }
            // register, packed kind, packed seed, coefficient: the selector is assembled from
            // an expanded query as the PIR server does
            "extx" => {
                if ten.params.ciphertext_moduli.len() < 2 {
                    return None;
                }
                let r = self.reg_where(a(0), |x| x.ct.cts.len() == 2 && x.level == 0)?.clone();
                let packed = small_values(a(1), a(2), n, t);
                let j = (a(3) % n as u64) as usize;
                let r1 = own.unpack_bound(2.0 * cfg.v as f64);
                let r0 = own.pn[1] * r1 + 2.0 * ten.e_ks(0);
                let sumq: f64 = ten.rings[0].moduli.iter().map(|q| *q as f64).sum();
                let b = r.b * (packed[j] as f64).max(1.0) + sumq * n as f64 * (r0 + r1);
                if !fits(0, b) {
                    return None;
                }
                let m = pscale(&r.m, packed[j], t);
                let slots = r.slots.as_ref().map(|x| pscale(x, packed[j], t));
                let x = r.ct.clone();
                let garner: Vec<BigUint> = (0..ten.rings[0].moduli.len()).map(|i| ten.rings[0].garner(i).clone()).collect();
                let body: Body = Arc::new(move |new| {
                    let ek = get_ek(&keys, new, &own);
                    let c = ctx(&own, 0);
                    let lower: Vec<BfvCipherText> = garner
                        .iter()
                        .map(|g| {
                            let p = &ntt(Poly::try_from_vec_u64(&c, &packed)) * g;
                            ek.unpack(own.sk.encrypt_poly(&p))[j].clone()
                        })
                        .collect();
                    vec![assemble_and_multiply(&own, &ek, &lower, &x)]
                });
                one(body, msg(m, slots, b, 0, 2), vec![r.ct], format!("coefficient {j}"))
            }
            // register, selector: the lower half is encrypted directly, the upper derived
            "exth" => {
                if ten.params.ciphertext_moduli.len() < 2 {
                    return None;
                }
                let r = self.reg_where(a(0), |x| x.ct.cts.len() == 2 && x.level == 0)?.clone();
                let v = small_values(a(1), a(2), n, t);
                let r1 = 2.0 * cfg.v as f64;
                let r0 = own.pn[1] * r1 + 2.0 * ten.e_ks(0);
                let sumq: f64 = ten.rings[0].moduli.iter().map(|q| *q as f64).sum();
                let b = r.b * norm1u(&v).max(1.0) + sumq * n as f64 * (r0 + r1);
                if !fits(0, b) {
                    return None;
                }
                let m = pmul(&r.m, &v, t);
                let x = r.ct.clone();
                let garner: Vec<BigUint> = (0..ten.rings[0].moduli.len()).map(|i| ten.rings[0].garner(i).clone()).collect();
                let body: Body = Arc::new(move |new| {
                    let ek = get_ek(&keys, new, &own);
                    let c = ctx(&own, 0);
                    let lower: Vec<BfvCipherText> =
                        garner.iter().map(|g| own.sk.encrypt_poly(&(&ntt(Poly::try_from_vec_u64(&c, &v)) * g))).collect();
                    vec![assemble_and_multiply(&own, &ek, &lower, &x)]
                });
                one(body, msg(m, None, b, 0, 2), vec![r.ct], String::new())
            }
            // register, target level, stepwise
            "switch" => {
                let r = self.reg_where(a(0), |x| x.level + 1 < ten.levels())?.clone();
                let span = (ten.levels() - 1 - r.level) as u64;
                let to = r.level + 1 + (a(1) % span) as usize;
                let (qf, qt) = (ten.rings[r.level].log2q(), ten.rings[to].log2q());
                let comps = r.ct.cts.len();
                let b = r.b * 2f64.powf(qt - qf) + own.pnsum(comps) * 0.5000001 + 0.001;
                if !fits(to, b) {
                    return None;
                }
                let stepwise = a(2) % 2 == 1;
                let x = r.ct.clone();
                let from = r.level;
                let body: Body = Arc::new(move |_| {
                    let cts = x
                        .cts
                        .iter()
                        .map(|p| {
                            let mut p = p.clone();
                            p.change_representation(Representation::PowerBasis);
                            if stepwise {
                                for _ in from..to {
                                    p.mod_switch_down_next();
                                }
                            } else {
                                p.mod_switch_to(&ctx(&own, to));
                            }
                            ntt(p)
                        })
                        .collect::<Vec<_>>();
                    let level = own.tenant.params.ctx_level(&cts[0].context).expect("level of the switched ciphertext");
                    vec![BfvCipherText { params: own.tenant.params.clone(), cts, level }]
                });
                let mut p = one(body, msg(r.m.clone(), r.slots.clone(), b, to, comps), vec![r.ct.clone()], format!("level {from} -> {to} stepwise {stepwise}"))?;
                p.switch_from = Some((r.ct, from));
                Some(p)
            }
            // register: expansion of a register or of a fresh ciphertext
            "unpack" => {
                if ten.params.ciphertext_moduli.len() < 2 {
                    return None;
                }
                let r = self.reg_where(a(0), |x| x.ct.cts.len() == 2 && x.level == 0)?.clone();
                let b = own.unpack_bound(r.b);
                if !fits(0, b) {
                    return None;
                }
                let x = r.ct.clone();
                let body: Body = Arc::new(move |new| get_ek(&keys, new, &own).unpack((*x).clone()));
                let expect = (0..n)
                    .map(|i| {
                        let mut m = vec![0; n];
                        m[0] = r.m[i];
                        Expect::Msg { m, slots: Some(vec![r.m[i]; n]), b, level: 0, comps: 2 }
                    })
                    .collect();
                Some(Prep { body, expect, keep: true, opnds: vec![r.ct], note: String::new(), switch_from: None })
            }
            // gadget digit, value kind, seed
            "unpackg" => {
                if ten.params.ciphertext_moduli.len() < 2 {
                    return None;
                }
                let ring = &ten.rings[0];
                let g = ring.garner((a(0) % ring.moduli.len() as u64) as usize).clone();
                let v = values(a(1), a(2), n, t);
                let b = own.unpack_bound(2.0 * cfg.v as f64);
                let expect = (0..n)
                    .map(|i| {
                        let mut x = vec![BigUint::zero(); n];
                        x[0] = (&g * v[i]) % &ring.q;
                        Expect::Raw { target: ring.residues(&x), b, level: 0 }
                    })
                    .collect();
                let body: Body = Arc::new(move |new| {
                    let ek = get_ek(&keys, new, &own);
                    let p = &ntt(Poly::try_from_vec_u64(&ctx(&own, 0), &v)) * &g;
                    ek.unpack(own.sk.encrypt_poly(&p))
                });
                Some(Prep { body, expect, keep: false, opnds: vec![], note: String::new(), switch_from: None })
            }
            // level, source kind, source seed, input kind, input seed
            "ks" => {
                let level = (a(0) % ten.levels() as u64) as usize;
                // the ring the key lives in: the ciphertext's or a larger one
                let klevel = if (a(6) >> 8) % 3 == 0 { ((a(6) >> 12) % (level as u64 + 1)) as usize } else { level };
                let c = ctx(&own, level);
                let kc = ctx(&own, klevel);
                let ring = ten.rings[level].clone();
                let kring = ten.rings[klevel].clone();
                let src = any_poly(&kring, a(1), a(2));
                let inp = any_poly(&ring, a(3), a(4));
                let pt_src = a(5) % 3 == 0;
                let pt = Plaintext::new(&ten.params, &values(a(1), a(2), n, t), klevel, if a(5) % 2 == 0 { Encoding::Poly } else { Encoding::SIMD });
                let from = if pt_src { pt.to_poly() } else { poly_of(&kc, &kring.lift(&src)) };
                let mut src = res_of(&from);
                src.truncate(ring.moduli.len());
                let reps = 1 + (a(6) % 3) as usize;
                // the first input again, or others
                let inps: Vec<_> = (0..reps).map(|i| if i == 0 || (a(6) >> 4) % 2 == 0 { inp.clone() } else { any_poly(&ring, a(3) + i as u64, a(4) + i as u64) }).collect();
                let expect = inps.iter().map(|i| Expect::Raw { target: ring.mul(&src, i), b: ten.e_ks(level), level }).collect();
                let inp_polys: Vec<Poly> = inps
                    .iter()
                    .map(|i| {
                        let mut p = Poly::try_from_bigint(&c, &ring.lift(i));
                        p.change_representation(Representation::PowerBasis);
                        p
                    })
                    .collect();
                let body: Body = Arc::new(move |_| {
                    let k = if pt_src { Ksk::new_with_pt(&own.sk, &pt, level, klevel) } else { Ksk::new(&own.sk, &from, level, klevel) };
                    inp_polys
                        .iter()
                        .map(|p| {
                            let (c0, c1) = k.key_switch(p);
                            ct_of(&own, level, c0, c1)
                        })
                        .collect()
                });
                Some(Prep { body, expect, keep: false, opnds: vec![], note: format!("level {level} key level {klevel} from plaintext {pt_src}"), switch_from: None })
            }
            // register, fraction, seed: noise up to the decryption limit
            "perturb" => {
                let r = self.reg(a(0))?.clone();
                let ring = &ten.rings[r.level];
                let limit = (&ring.q / (2 * t)).to_f64().unwrap();
                let room = limit * (1.0 - 1e-5) - r.b - 8.0;
                if room < 1.0 {
                    return None;
                }
                let amt = match a(1) % 4 {
                    0 => room,
                    1 => room * 0.99,
                    2 => room / 2.0,
                    _ => 2f64.powf(room.log2() * ((a(2) % 100) as f64 / 100.0)),
                };
                let big = BigUint::from_f64(amt.floor()).unwrap();
                let mut g = Rng::new(a(2));
                let e: Vec<BigUint> = (0..n)
                    .map(|_| match g.below(4) {
                        0 => big.clone(),
                        1 => &ring.q - &big,
                        2 => BigUint::zero(),
                        _ => &big / (1 + g.below(9)),
                    })
                    .collect();
                let b = r.b + amt;
                if !fits(r.level, b) {
                    return None;
                }
                let p = poly_of(&ctx(&own, r.level), &e);
                let x = r.ct.clone();
                let body: Body = Arc::new(move |_| {
                    let mut y = (*x).clone();
                    y.cts[0] += &p;
                    vec![y]
                });
                let comps = r.ct.cts.len();
                one(body, msg(r.m.clone(), r.slots.clone(), b, r.level, comps), vec![r.ct], format!("2^{:.1}", amt.log2()))
            }
            // level, value kind, value seed: a caller that sets up everything anew: parameters,
            // a secret key of its own, the owner's key imported, one encryption
            "session" => {
                let level = (a(0) % ten.levels() as u64) as usize;
                if !fits(level, ten.fresh()) {
                    return None;
                }
                let v = values(a(1), a(2), n, t);
                let m = v.clone();
                let id = op.id;
                let body: Body = Arc::new(move |new| {
                    let ten = Tenant::build(&own.tenant.cfg);
                    let mine = SecretKey::generate(&ten.params);
                    let pt = Plaintext::new(&ten.params, &v, level, Encoding::Poly);
                    assert!(mine.decrypt(&mine.encrypt(&pt)).values.to_vec() == v, "a new session's first message");
                    new.push((KeyId::Sk(id), Key::Sk(mine.coeffs.to_vec())));
                    let sk = SecretKey::new(own.s.clone(), &ten.params);
                    let c = sk.encrypt(&pt);
                    vec![BfvCipherText { params: own.tenant.params.clone(), cts: c.cts.clone(), level: c.level }]
                });
                one(body, msg(m, None, ten.fresh(), level, 2), vec![], format!("level {level}"))
            }
            _ => panic!("unknown machine operation {}", op.kind),
        }
    }
}

fn slots_under(x: &[u64], k: u64) -> Option<Vec<u64>> {
    let n = x.len();
    let m2 = 2 * n as u64;
    let mut p = 1u64;
    for j in 0..n / 2 {
        if p == k {
            return Some(rotate_slots(x, j));
        }
        if m2 - p == k {
            return Some(swap_rows(&rotate_slots(x, j)));
        }
        p = p * 3 % m2;
    }
    None
}

fn any_poly(ring: &RefRing, kind: u64, seed: u64) -> Res {
    let mut g = Rng::new(seed);
    let n = ring.n;
    match kind % 5 {
        0 => ring.from_i64(&(0..n).map(|_| g.below(5) as i64 - 2).collect::<Vec<_>>()),
        1 => ring.moduli.iter().map(|m| vec![m - 1; n]).collect(),
        2 => ring.moduli.iter().map(|m| (0..n).map(|_| *g.pick(&[0, 1, m - 1, m / 2])).collect()).collect(),
        _ => ring.moduli.iter().map(|m| (0..n).map(|_| g.below(*m)).collect()).collect(),
    }
}

/// The server's recipe: upper half by external products with the encrypted secret key.
fn assemble_and_multiply(own: &Owner, ek: &PirEvalKey, lower: &Vec<BfvCipherText>, x: &BfvCipherText) -> BfvCipherText {
    let params = &own.tenant.params;
    let upper: Vec<BfvCipherText> = lower
        .iter()
        .map(|c| {
            let (c0, c1) = RgswCt::external_product(ek.sk_rgsw(), c);
            ct_of(own, 0, c0, c1)
        })
        .collect();
    let ksk1 = Ksk::try_from_decomposed_rlwes(params, lower);
    let ksk0 = Ksk::try_from_decomposed_rlwes(params, &upper);
    let g = RgswCt::try_from_ksks(&ksk0, &ksk1);
    let (c0, c1) = RgswCt::external_product(&g, x);
    ct_of(own, 0, c0, c1)
}

struct Flight {
    actor: usize,
    op: Op,
    prep: Prep,
    attempt: u64,
    stall: Option<u64>,
}

type Ret = (Outcome<JobOut>, Stream);

fn launch(sched: &mut Sched, plan: &Plan, job: usize, f: &Flight, own: &Owner, fl: Flags) {
    let stream = stream_for(plan, f.op.id, f.attempt);
    let body = f.prep.body.clone();
    let opnds = f.prep.opnds.clone();
    let sk = own.sk.clone();
    let kinds: Vec<Option<bool>> = f
        .prep
        .expect
        .iter()
        .map(|e| match e {
            Expect::Msg { slots, .. } => Some(slots.is_some()),
            _ => None,
        })
        .collect();
    sched.submit(job, move || -> Ret {
        rt::with_stream(stream, move || {
            let before: Vec<u64> = opnds.iter().map(|c| dig_ct(c)).collect();
            let mut keys = vec![];
            let cts = body(&mut keys);
            let mut dec = vec![];
            let mut meas = vec![];
            for (i, c) in cts.iter().enumerate() {
                let k = kinds.get(i).copied().flatten();
                if let (Some(simd), true) = (k, fl.dec) {
                    let mut pt = sk.decrypt(c);
                    let vals = pt.values.to_vec();
                    let sl = if simd {
                        pt.set_encoding(Encoding::SIMD);
                        Some(pt.decode())
                    } else {
                        pt.set_encoding(Encoding::Poly);
                        assert!(pt.decode() == vals, "coefficient decoding returns the coefficients");
                        None
                    };
                    dec.push(Some((vals, sl, pt.level)));
                } else {
                    dec.push(None);
                }
                meas.push(if k.is_some() && fl.measure { Some(sk.measure_noise(c)) } else { None });
            }
            let opnd_ok = opnds.iter().map(|c| dig_ct(c)).collect::<Vec<_>>() == before;
            JobOut { cts, dec, meas, keys, opnd_ok }
        })
    });
}

fn bits(x: f64) -> f64 {
    (x.max(1e-9)).log2()
}

/// Runs one job alone, without preemption, on the calling thread.
pub fn solo<R>(plan: &Plan, cx: &mut Cx, op: u64, what: &str, f: impl Fn() -> R) -> Res1<R> {
    for attempt in plan.knob_or(&format!("att.{op}"), 0)..4 {
        let (o, s) = rt::with_stream(stream_for(plan, op, attempt), &f);
        cx.take_stream(&s);
        match o {
            Outcome::Ok(r) => return Ok(r),
            Outcome::EntropyFailed => continue,
            Outcome::Panicked(m) => return viol("panic", format!("{what} panicked: {m}")),
        }
    }
    viol("retry", format!("{what} kept failing after the entropy source recovered"))
}

/// Secret keys: mostly generated by the library, sometimes supplied by the caller.
pub fn make_owner(plan: &Plan, cx: &mut Cx, o: u64, tenant: &Arc<Tenant>) -> Res1<Owner> {
    let kind = plan.knob_or(&format!("o{o}.sk"), 0);
    let n = tenant.cfg.n;
    let v2 = 2 * tenant.cfg.v as i64;
    let mut g = Rng::new(mix2(plan.seed, 77 + o));
    let sk = match kind {
        1 => SecretKey::new((0..n).map(|_| v2).collect(), &tenant.params),
        2 => SecretKey::new((0..n).map(|i| if i % 2 == 0 { -v2 } else { v2 }).collect(), &tenant.params),
        3 => SecretKey::new((0..n).map(|_| g.below(3) as i64 - 1).collect(), &tenant.params),
        4 => SecretKey::new((0..n).map(|i| (i == 0) as i64).collect(), &tenant.params),
        _ => {
            let t = tenant.clone();
            solo(plan, cx, 1_000_000 + o, "SecretKey::generate", move || SecretKey::generate(&t.params))?
        }
    };
    if sk.coeffs.len() != n || sk.coeffs.iter().any(|c| c.abs() > v2) {
        return viol("secret-bound", format!("secret key coefficients outside [-{v2}, {v2}] or wrong length: {:?}", &sk.coeffs[..n.min(8)]));
    }
    Ok(Owner::new(tenant, sk))
}

/// Evaluation keys made once per owner and used by all its callers at the same time.
fn shared_keys(plan: &Plan, cx: &mut Cx, o: u64, own: &Owner) -> Res1<BTreeMap<KeyId, Key>> {
    let ten = own.tenant.clone();
    let mut out = BTreeMap::new();
    for level in 0..ten.levels() {
        let own = own.clone();
        let k = solo(plan, cx, 2_000_000 + 100 * o + level as u64, "key generation", move || {
            let mut new = vec![];
            get_rlk(&BTreeMap::new(), &mut new, &own, level);
            if level == 0 && own.tenant.levels() > 1 {
                get_ek(&BTreeMap::new(), &mut new, &own);
                let n = own.tenant.cfg.n as u64;
                for k in [3, 2 * n - 1] {
                    get_gk(&BTreeMap::new(), &mut new, &own, level, k);
                }
            }
            new
        })?;
        out.extend(k);
    }
    Ok(out)
}

pub fn run(plan: &Plan, cx: &mut Cx, fl: Flags) -> Res1<()> {
    let nt = plan.knob("tenants") as usize;
    let no = plan.knob("owners") as usize;
    let na = plan.knob("actors") as usize;
    let only = plan.knob_or("only", 0);
    // a run restricted to one caller builds nothing that caller does not need
    let need = |o: usize| only == 0 || (only as usize - 1) % no == o;
    let tenants: Vec<Option<Arc<Tenant>>> =
        (0..nt).map(|i| if (0..no).any(|o| o % nt == i && need(o)) { Some(Tenant::build(&Cfg::get(plan, i))) } else { None }).collect();
    let mut owners = vec![];
    let mut shared = vec![];
    for o in 0..no {
        owners.push(None);
        shared.push(BTreeMap::new());
        if let (true, Some(t)) = (need(o), &tenants[o % nt]) {
            let own = make_owner(plan, cx, o as u64, t)?;
            if plan.knob_or("shared", 0) == 1 {
                shared[o] = shared_keys(plan, cx, o as u64, &own)?;
            }
            owners[o] = Some(own);
        }
    }
    let mut actors: Vec<Option<Actor>> =
        (0..na).map(|a| owners[a % no].clone().map(|own| Actor { own, regs: vec![], keys: shared[a % no].clone() })).collect();
    // only the callers keep parameters and keys alive
    drop(owners);
    drop(shared);
    drop(tenants);
    let mut queues: Vec<VecDeque<Op>> = vec![VecDeque::new(); na];
    for op in &plan.ops {
        let a = op.actor as usize % na;
        if only == 0 || only == a as u64 + 1 {
            queues[a].push_back(op.clone());
        }
    }
    let mut sched = Sched::new(plan.knob("workers") as usize, plan.knob_or("sched", plan.seed), plan.knob_or("preempt", 0));
    let mut flights: BTreeMap<usize, Flight> = BTreeMap::new();
    let mut next_job = 0usize;
    let mut steps = 0u64;
    loop {
        for a in 0..na {
            if flights.values().any(|f| f.actor == a) {
                continue;
            }
            while let Some(op) = queues[a].pop_front() {
                if op.kind == "renew" {
                    // the caller throws everything away and starts over with other parameters
                    actors[a] = None;
                    let t = Tenant::build(&Cfg::get(plan, op.args[0] as usize));
                    let own = make_owner(plan, cx, 500_000 + op.id, &t)?;
                    cx.ev(format!("op {} (renew by caller {a}): {}", op.id, t.cfg.describe()));
                    cx.count("op_renew", 1);
                    actors[a] = Some(Actor { own, regs: vec![], keys: BTreeMap::new() });
                    continue;
                }
                match actors[a].as_ref().unwrap().prepare(&op) {
                    None => {
                        cx.count("ops_skipped", 1);
                    }
                    Some(prep) => {
                        let stall = plan.faults_of("stall", op.id).next().map(|f| f.args[1]);
                        let attempt = plan.knob_or(&format!("att.{}", op.id), 0);
                        let f = Flight { actor: a, op, prep, attempt, stall };
                        next_job += 1;
                        launch(&mut sched, plan, next_job, &f, &actors[a].as_ref().unwrap().own, fl);
                        flights.insert(next_job, f);
                        break;
                    }
                }
            }
        }
        if flights.is_empty() {
            break;
        }
        steps += 1;
        if steps > 3_000_000 {
            return viol("no-progress", "callers made no progress within the step budget".into());
        }
        match sched.step() {
            Step::Progress => {
                let jobs = sched.in_flight();
                for j in jobs {
                    if let Some(f) = flights.get_mut(&j) {
                        if let Some(c) = f.stall {
                            f.stall = if c == 0 { None } else { Some(c - 1) };
                            if c == 0 && sched.pending() {
                                sched.stall(j);
                            }
                        }
                    }
                }
            }
            Step::Idle => {
                if !sched.drain() {
                    return viol("no-progress", "an operation never completed".into());
                }
            }
            Step::Deadlock => return viol("deadlock", "all callers wait for a lock".into()),
            Step::Done(job, any) => {
                let mut f = flights.remove(&job).expect("flight");
                let (out, stream) = *any.downcast::<Ret>().expect("job result");
                cx.take_stream(&stream);
                let name = format!("op {} ({} by caller {}, {})", f.op.id, f.op.kind, f.actor, f.prep.note);
                match out {
                    Outcome::EntropyFailed => {
                        cx.ev(format!("{name}: entropy failed, retrying"));
                        f.attempt += 1;
                        cx.count("retries", 1);
                        next_job += 1;
                        launch(&mut sched, plan, next_job, &f, &actors[f.actor].as_ref().unwrap().own, fl);
                        flights.insert(next_job, f);
                    }
                    Outcome::Panicked(m) => return viol("panic", format!("{name} panicked: {m}")),
                    Outcome::Ok(o) => {
                        judge(cx, actors[f.actor].as_mut().unwrap(), &f, o, fl, &name)?;
                        if f.attempt > 0 {
                            cx.digests.push((1 << 40 | f.op.id, f.attempt));
                        }
                    }
                }
            }
        }
    }
    cx.take_sched(&mut sched);
    sched.retire();
    Ok(())
}

fn judge(cx: &mut Cx, actor: &mut Actor, f: &Flight, o: JobOut, fl: Flags, name: &str) -> Res1<()> {
    let own = actor.own.clone();
    let ten = own.tenant.clone();
    cx.count(&format!("op_{}", f.op.kind), 1);
    let dig = o.cts.iter().fold(o.keys.len() as u64, |h, c| rt::fnv(h, dig_ct(c)));
    let dig = o.keys.iter().fold(dig, |h, (_, k)| {
        rt::fnv(
            h,
            match k {
                Key::Gk(g) => dig_ksk(g.sim_ksk()),
                Key::Rlk(g) => dig_ksk(g.sim_ksk()),
                Key::Sk(s) => s.iter().fold(5, |h, x| rt::fnv(h, *x as u64)),
                Key::Ek(e) => e
                    .galois_keys()
                    .iter()
                    .fold(rt::fnv(dig_ksk(&e.sk_rgsw().ksk0), dig_ksk(&e.sk_rgsw().ksk1)), |h, (k, g)| rt::fnv(rt::fnv(h, *k as u64), dig_ksk(g.sim_ksk()))),
            },
        )
    });
    cx.digests.push((f.op.id, dig));
    if !o.opnd_ok {
        return viol("operand", format!("{name}: an operand changed"));
    }
    if o.cts.len() != f.prep.expect.len() {
        return viol("count", format!("{name}: {} results where {} are due", o.cts.len(), f.prep.expect.len()));
    }
    let mut worst: f64 = 0.0;
    for (i, (c, e)) in o.cts.iter().zip(&f.prep.expect).enumerate() {
        cx.checks += 1;
        let at = if o.cts.len() > 1 { format!("{name}, result {i}") } else { name.to_string() };
        let level = match e {
            Expect::Msg { level, .. } | Expect::Raw { level, .. } => *level,
        };
        let ring = &ten.rings[level];
        if c.level != level {
            return viol("level", format!("{at}: ciphertext says level {} but its operands imply {level}", c.level));
        }
        for (j, p) in c.cts.iter().enumerate() {
            if p.context.moduli_64 != ring.moduli {
                return viol("level", format!("{at}: component {j} has {} moduli at level {level}", p.context.moduli_64.len()));
            }
            if p.representation != Representation::Ntt {
                return viol("representation", format!("{at}: component {j} is not in NTT representation"));
            }
        }
        let res: Vec<Res> = c.cts.iter().map(res_of).collect();
        match e {
            Expect::Raw { target, b, .. } => {
                let ph = ring.phase(&res, &own.s);
                let d = ring.inf_norm(&ring.sub(&ph, target)).to_f64().unwrap();
                worst = worst.max(bits(d) - bits(*b));
                if fl.raw && d > b * (1.0 + 1e-9) {
                    return viol("phase", format!("{at}: phase is off its target by 2^{:.2}, worst case is 2^{:.2}", bits(d), bits(*b)));
                }
            }
            Expect::Msg { m, slots, b, comps, .. } => {
                if fl.dec {
                    let Some(Some((vals, sl, lv))) = o.dec.get(i) else { return viol("count", format!("{at}: no decryption")) };
                    if vals != m {
                        let j = (0..m.len()).find(|j| vals.get(*j) != Some(&m[*j])).unwrap_or(0);
                        return viol("decrypt", format!("{at}: decrypts to {:?} where the model has {} at coefficient {j}", vals.get(j), m[j]));
                    }
                    if let (Some(want), Some(got)) = (slots, sl) {
                        if want != got {
                            let j = (0..want.len()).find(|j| got.get(*j) != Some(&want[*j])).unwrap_or(0);
                            return viol("slots", format!("{at}: slot {j} decodes to {:?} where the model has {}", got.get(j), want[j]));
                        }
                        cx.count("slot_checks", 1);
                    }
                    if *lv != level {
                        return viol("level", format!("{at}: the decrypted plaintext says level {lv}, the ciphertext is at {level}"));
                    }
                }
                if c.cts.len() != *comps {
                    return viol("components", format!("{at}: {} components where {comps} are due", c.cts.len()));
                }
                if fl.noise || fl.measure {
                    let ph = ring.phase(&res, &own.s);
                    let nu = ring.noise(&ph, m, ten.cfg.t);
                    worst = worst.max(bits(nu) - bits(*b));
                    if fl.noise && nu > b * (1.0 + 1e-9) + 1e-6 {
                        return viol("noise", format!("{at}: noise 2^{:.2} exceeds the worst case 2^{:.2}", bits(nu), bits(*b)));
                    }
                    if fl.measure {
                        let r = o.meas[i].unwrap() as i32;
                        let lo = 2f64.powi(r - 2) - 3.0;
                        let hi = 2f64.powi(r + 1) + 3.0;
                        if nu < lo || nu > hi {
                            return viol("measure", format!("{at}: measure_noise reports {r} bits, the noise is 2^{:.2}", bits(nu)));
                        }
                        cx.count("measure_checks", 1);
                    }
                    if nu > b / 2.0 {
                        cx.count("probe_noise_within_one_bit_of_worst_case", 1);
                    }
                }
                if c.cts.len() > 2 {
                    cx.count("probe_more_than_two_components", 1);
                }
                if level > 0 {
                    cx.count("probe_below_top_level", 1);
                }
                if level + 1 == ten.levels() {
                    cx.count("probe_last_level", 1);
                }
                if f.prep.keep {
                    let r = Reg { ct: Arc::new(c.clone()), m: m.clone(), slots: slots.clone(), b: *b, level };
                    // expansion results: keep a few
                    if o.cts.len() == 1 || i < 2 || i + 1 == o.cts.len() {
                        actor.regs.push(r);
                    }
                }
            }
        }
        if let (Some((src, from)), true) = (&f.prep.switch_from, fl.noise) {
            switch_exact(&ten, src, *from, c, level, &at)?;
        }
    }
    for (k, v) in o.keys {
        actor.keys.insert(k, v);
    }
    if actor.regs.len() > 12 {
        actor.regs.drain(0..4);
    }
    cx.ev(format!("{name}: digest {dig:016x} margin {worst:.1} bits"));
    Ok(())
}

/// Each switched component is the source divided by the dropped moduli, rounded to nearest.
fn switch_exact(ten: &Tenant, src: &BfvCipherText, from: usize, out: &BfvCipherText, to: usize, at: &str) -> Res1<()> {
    let big = &ten.rings[from];
    let small = &ten.rings[to];
    let drop = &big.q / &small.q;
    for (j, (a, b)) in src.cts.iter().zip(&out.cts).enumerate() {
        let x = big.lift(&res_of(a));
        let y = small.lift(&res_of(b));
        for (i, (x, y)) in x.iter().zip(&y).enumerate() {
            let z = y * &drop;
            let d = if &z >= x { &z - x } else { &big.q - (x - &z) } % &big.q;
            let d = if d > big.half { &big.q - d } else { d };
            // round to nearest, a second-order term per further step
            let lim = &drop / 2u32 + (&drop >> 20) + 1u32;
            if d > lim {
                return viol(
                    "rounding",
                    format!("{at}: component {j} coefficient {i} is off by {:.4} units after switching", d.to_f64().unwrap() / drop.to_f64().unwrap()),
                );
            }
        }
    }
    Ok(())
}
