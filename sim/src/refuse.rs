//! Malformed and mismatched requests between well-formed ones: every malformed
//! call must be refused (unwind) and must leave everything else working.

use crate::gen::*;
use crate::machine::{make_owner, Owner};
use crate::pir::*;
use crate::plan::Plan;
use crate::refm::*;
use crate::rt::{Outcome, Rng};
use crate::world::*;
use onion_pir::sim_api::{
    multiply_with_strategy, omr_inner_product, BfvCipherText, Encoding, GaliosKey, Ksk, PirClient, PirEvalKey, PirServer, Plaintext, Poly, PvwParams, PvwSk, RelinearizationKey,
    Representation, RgswCt, RqContext, SecretKey, Substitution,
};
use std::sync::Arc;

const BAD: &[&str] = &[
    "query_missing",
    "query_missing",
    "query_surplus",
    "query_surplus",
    "pos_first",
    "pos_first",
    "pos_other",
    "pos_other",
    "pos_dims",
    "rows",
    "rows",
    "rows",
    "add_level",
    "add_params",
    "sub_level",
    "sub_params",
    "mul_level",
    "mul_params",
    "mulpt_level",
    "mulpt_params",
    "addpoly_ring",
    "mulpoly_ring",
    "mulpoly_rep",
    "addpoly_rep",
    "gal_level",
    "gal_ring",
    "gal_even",
    "ext_level",
    "ext_ring",
    "ks_level",
    "ks_rep",
    "relin_level",
    "mulrelin_level",
    "mulrelin_key",
    "mulrelin_params",
    "mulrelin_comps",
    "encpoly_ring",
    "rgsw_params",
    "rgswpoly_ring",
    "rgswpoly_rep",
    "inner_len",
    "rlwes_params",
    "switch_last",
    "switch_rep",
    "switch_up",
    "decode_none",
    "server_rows",
    "server_rows",
    "rlwes_level",
    "rlwes_count",
    "ksks_mixed",
    "gal_comps",
    "ext_comps",
    "comp_rep",
    "comp_rep",
    "gal_rep",
    "query_level",
    "query_params",
    "query_comps",
    "query_rep",
    "inner_ring",
    "inner_level",
    "encpoly_rep",
    "enc_params",
    "dec_params",
    "server_params",
    "server_params",
    "slots_long",
    "coeffs_long",
    "bits_long",
    "level_out",
    "value_out",
    "value_out",
    "record_out",
    "bits_out",
    "coeffs_secret",
];

pub fn gen(p: &mut Plan, rng: &mut Rng, deep: bool) {
    // with one record per further dimension a position with surplus dimensions is well-formed
    let (mut a, sh) = loop {
        let x = gen_service(rng, &[8, 16, 16, 32], 32);
        if x.1.dim > 1 {
            break x;
        }
    };
    if a.sizes.len() < 2 {
        a.sizes.push(62);
        a.ub.push(0);
    }
    a.dflt = false;
    a.put(p, 0);
    sh.put(p, 0);
    // the same ring with another plaintext modulus, and another ring of the same degree
    let mut b = a.clone();
    while b.t == a.t || !b.valid() {
        b.t = gen_t(a.n, rng, 26);
    }
    b.put(p, 1);
    let mut c = a.clone();
    match rng.below(3) {
        0 => c.sizes.reverse(),
        1 => c.sizes.iter_mut().for_each(|s| *s = (*s - 3).max(33)),
        _ => c.sizes.iter_mut().for_each(|s| *s = 45.max(64 - a.t.leading_zeros() as usize + 2)),
    }
    // a different first modulus makes the ring of every level different
    if c.sizes[0] == a.sizes[0] {
        c.sizes[0] = if a.sizes[0] > 50 { a.sizes[0] - 1 } else { a.sizes[0] + 1 };
    }
    c.put(p, 2);
    schedule_knobs(p, rng, 4);
    let rate = *rng.pick(&[0, 0, 20]);
    for o in 0..3 {
        owner_keys(p, rng, o, &a, rate);
    }
    p.set("s.0.dbkind", rng.below(6));
    p.set("s.0.dbseed", rng.next() >> 20);
    for _ in 0..rng.range(6, if deep { 40 } else { 24 }) {
        let kind = if rng.chance(65) { *rng.pick(BAD) } else { *rng.pick(&["good_query", "good_eval", "good_mul"]) };
        let args = (0..5).map(|_| rng.next() >> 16).collect();
        let id = p.op(0, kind, args);
        if kind.starts_with("good") {
            gen_entropy_faults(p, rng, id, &a, rate, rate);
        }
    }
    let id = p.op(0, "good_query", vec![0, 1, 2, 3, 4]);
    let _ = id;
    p.op(0, "good_eval", vec![0, 1, 2, 3, 4]);
}

struct W {
    own: Vec<Owner>,
    sh: Shape,
    db: Vec<Vec<u64>>,
    server: PirServer,
    ek: PirEvalKey,
    query: Vec<BfvCipherText>,
    /// level of the second ciphertexts
    cts: Vec<Vec<BfvCipherText>>,
}

fn ctx(o: &Owner, l: usize) -> Arc<RqContext> {
    o.tenant.params.q_ctxs[l].clone()
}

fn poly(o: &Owner, l: usize, seed: u64, ntt: bool) -> Poly {
    let v = values(9, seed, o.tenant.cfg.n, o.tenant.cfg.t);
    let mut p = Poly::try_from_vec_u64(&ctx(o, l), &v);
    if ntt {
        p.change_representation(Representation::Ntt);
    }
    p
}

fn pt(o: &Owner, l: usize, seed: u64) -> Plaintext {
    Plaintext::new(&o.tenant.params, &values(9, seed, o.tenant.cfg.n, o.tenant.cfg.t), l, Encoding::Poly)
}

/// Values of which some are beyond the plaintext modulus.
fn beyond(a: &[u64], n: usize, t: u64) -> Vec<u64> {
    let mut v = values(9, a[3], n, t);
    let mut r = Rng::new(a[4]);
    for _ in 0..1 + r.below(4) {
        let i = r.below(n as u64) as usize;
        v[i] = match r.below(6) {
            0 => t,
            1 => 2 * t + r.below(t),
            2 => t + r.below(t),
            3 => u64::MAX,
            4 => (1 << r.range(40, 63)) + r.below(1 << 40),
            _ => v[i] + t * r.below(1 << 10),
        };
    }
    v
}

/// Ok(()): the call returned; the text says what it returned.
fn bad(w: &W, kind: &str, a: &[u64]) -> String {
    let (o, o2, o3) = (&w.own[0], &w.own[1], &w.own[2]);
    let params = &o.tenant.params;
    let lv = o.tenant.levels();
    // two different levels
    let l1 = (a[0] % lv as u64) as usize;
    let l2 = (l1 + 1 + (a[1] % (lv as u64 - 1)) as usize) % lv;
    let x = |t: usize, l: usize| &w.cts[t][l];
    let sh = &w.sh;
    let sk: &SecretKey = &o.sk;
    let foreign = if a[2] % 2 == 0 { 1 } else { 2 };
    match kind {
        "query_missing" => {
            let mut q = w.query.clone();
            match a[0] % 4 {
                0 => {
                    q.pop();
                }
                1 => {
                    q.remove((a[1] % q.len() as u64) as usize);
                }
                2 => q.truncate((a[1] % q.len() as u64) as usize),
                _ => q.clear(),
            }
            let n = q.len();
            let r = w.server.decode(q, &w.ek, params);
            format!("{} answer ciphertexts for a query of {n} ciphertexts", r.len())
        }
        "query_surplus" => {
            let mut q = w.query.clone();
            for _ in 0..1 + a[0] % 3 {
                let i = (a[1] % q.len() as u64) as usize;
                let c = q[i].clone();
                if a[2] % 2 == 0 {
                    q.push(c);
                } else {
                    q.insert(i, c);
                }
            }
            let n = q.len();
            let r = w.server.decode(q, &w.ek, params);
            format!("{} answer ciphertexts for a query of {n} ciphertexts", r.len())
        }
        "pos_first" | "pos_other" | "pos_dims" => {
            let mut pos = sh.position((a[0] % sh.rows() as u64) as usize);
            if kind == "pos_first" || (kind == "pos_other" && sh.nd == 1) {
                pos[0] = sh.first + *[0, 1, sh.dim, 1000, usize::MAX - sh.first].get((a[1] % 5) as usize).unwrap();
            } else if kind == "pos_other" {
                let i = 1 + (a[2] % (sh.nd as u64 - 1)) as usize;
                pos[i] = sh.dim + *[0, 1, sh.first, 1000, usize::MAX - sh.dim].get((a[1] % 5) as usize).unwrap();
            } else if a[1] % 2 == 0 {
                pos.push((a[2] % sh.dim as u64) as usize);
            } else {
                pos.pop();
            }
            let r = PirClient::new(sh.first, sh.dim).encode(pos.clone(), sh.rows(), params, sk);
            format!("position {pos:?} encoded as {} values for shape {sh:?}", r.len())
        }
        "rows" => {
            let n = sh.rows();
            let mut rows = match a[0] % 7 {
                0 => n + 1,
                1 => n - 1,
                2 => n * 2,
                3 => n * sh.dim,
                4 => n / 2,
                5 => 0,
                _ => n + 1 + (a[1] % (n as u64 * 3)) as usize,
            };
            if rows == n {
                rows += 1;
            }
            let pos = sh.position((a[2] % n as u64) as usize);
            let r = PirClient::new(sh.first, sh.dim).encode(pos, rows, params, sk);
            format!("{} values encoded for {rows} records in shape {sh:?}", r.len())
        }
        "add_level" => format!("level {} sum", (x(0, l1) + x(0, l2)).level),
        "sub_level" => format!("level {} difference", (x(0, l1) - x(0, l2)).level),
        "add_params" => format!("level {} sum", (x(0, l1) + x(foreign, l1)).level),
        "sub_params" => format!("level {} difference", (x(0, l1) - x(foreign, l1)).level),
        "mul_level" => format!("{} components", (x(0, l1) * x(0, l2)).cts.len()),
        "mul_params" => format!("{} components", (x(0, l1) * x(foreign, l1)).cts.len()),
        "mulpt_level" => format!("{} components", (x(0, l1) * &pt(o, l2, a[3])).cts.len()),
        "mulpt_params" => format!("{} components", (x(0, l1) * &pt(if foreign == 1 { o2 } else { o3 }, l1, a[3])).cts.len()),
        "addpoly_ring" => {
            let p = if a[3] % 2 == 0 { poly(o, l2, a[3], true) } else { poly(o3, l1, a[3], true) };
            format!("{} components", (x(0, l1) + &p).cts.len())
        }
        "mulpoly_ring" => {
            let p = if a[3] % 2 == 0 { poly(o, l2, a[3], true) } else { poly(o3, l1, a[3], true) };
            format!("{} components", (x(0, l1) * &p).cts.len())
        }
        "mulpoly_rep" => format!("{} components", (x(0, l1) * &poly(o, l1, a[3], false)).cts.len()),
        "addpoly_rep" => format!("{} components", (x(0, l1) + &poly(o, l1, a[3], false)).cts.len()),
        "gal_level" => {
            let g = GaliosKey::new(sk, &Substitution::new(&ctx(o, l1), 3), l1);
            format!("level {}", g.relinearize(x(0, l2)).level)
        }
        "gal_ring" => {
            let g = GaliosKey::new(sk, &Substitution::new(&ctx(o, l1), 3), l1);
            format!("level {}", g.relinearize(x(2, l1)).level)
        }
        "gal_even" => {
            let k = 2 * (a[3] % (2 * o.tenant.cfg.n as u64)) as usize;
            let s = Substitution::new(&ctx(o, l1), k);
            let g = GaliosKey::new(sk, &s, l1);
            format!("exponent {k}: level {}", g.relinearize(x(0, l1)).level)
        }
        "ext_level" => {
            let g = RgswCt::encrypt(sk, &pt(o, l1, a[3]));
            format!("{}", RgswCt::external_product(&g, x(0, l2)).0.context.degree)
        }
        "ext_ring" => {
            let g = RgswCt::encrypt(sk, &pt(o, l1, a[3]));
            format!("{}", RgswCt::external_product(&g, x(2, l1)).0.context.degree)
        }
        "ks_level" => {
            let k = Ksk::new(sk, &poly(o, l1, a[3], true), l1, l1);
            format!("{}", k.key_switch(&poly(o, l2, a[3], false)).0.context.degree)
        }
        "ks_rep" => {
            let k = Ksk::new(sk, &poly(o, l1, a[3], true), l1, l1);
            format!("{}", k.key_switch(&poly(o, l1, a[3], true)).0.context.degree)
        }
        "relin_level" => {
            let k = RelinearizationKey::new(sk, l1);
            format!("{}", k.relinearize_poly(&poly(o, l2, a[3], a[4] % 2 == 0)).0.context.degree)
        }
        "mulrelin_level" => format!("{}", multiply_with_strategy(x(0, l1), x(0, l2), &RelinearizationKey::new(sk, l1)).level),
        "mulrelin_key" => format!("{}", multiply_with_strategy(x(0, l1), x(0, l1), &RelinearizationKey::new(sk, l2)).level),
        "mulrelin_params" => {
            if a[3] % 2 == 0 {
                let k = RelinearizationKey::new(&w.own[foreign].sk, l1);
                format!("{}", multiply_with_strategy(x(0, l1), x(0, l1), &k).level)
            } else {
                let k = RelinearizationKey::new(sk, l1);
                format!("{}", multiply_with_strategy(x(0, l1), x(foreign, l1), &k).level)
            }
        }
        "mulrelin_comps" => {
            let mut y = x(0, l1).clone();
            y.cts.push(y.cts[1].clone());
            let k = RelinearizationKey::new(sk, l1);
            let r = if a[3] % 2 == 0 { multiply_with_strategy(&y, x(0, l1), &k) } else { multiply_with_strategy(x(0, l1), &y, &k) };
            format!("{}", r.level)
        }
        "encpoly_ring" => format!("level {}", sk.encrypt_poly(&poly(o3, l1, a[3], true)).level),
        "rgsw_params" => format!("{} rows", RgswCt::encrypt(sk, &pt(if foreign == 1 { o2 } else { o3 }, l1, a[3])).ksk0.c0.len()),
        "rgswpoly_ring" => format!("{} rows", RgswCt::encrypt_poly(sk, &poly(o3, l1, a[3], true)).ksk0.c0.len()),
        "rgswpoly_rep" => format!("{} rows", RgswCt::encrypt_poly(sk, &poly(o, l1, a[3], false)).ksk0.c0.len()),
        "inner_len" => {
            let n = 1 + (a[3] % 3) as usize;
            let m = (n + 1 + (a[4] % 2) as usize) % 4;
            let cts = vec![x(0, l1).clone(); n];
            let ps = vec![poly(o, l1, 5, true); m];
            format!("{} components from {n} ciphertexts and {m} polynomials", omr_inner_product(&cts, &ps).cts.len())
        }
        "rlwes_params" => {
            let mut v = vec![x(0, 0).clone(); o.tenant.rings[0].moduli.len()];
            let i = (a[3] % v.len() as u64) as usize;
            v[i] = x(foreign, 0).clone();
            format!("{} rows", Ksk::try_from_decomposed_rlwes(params, &v).c0.len())
        }
        "switch_last" => {
            let mut p = poly(o, lv - 1, a[3], false);
            p.mod_switch_down_next();
            format!("{} moduli", p.context.moduli_64.len())
        }
        "switch_rep" => {
            let mut p = poly(o, 0, a[3], true);
            p.mod_switch_down_next();
            format!("{} moduli", p.context.moduli_64.len())
        }
        "switch_up" => {
            let lo = l1.min(l2);
            let mut p = poly(o, l1.max(l2), a[3], false);
            p.mod_switch_to(&ctx(o, lo));
            format!("{} moduli", p.context.moduli_64.len())
        }
        "server_rows" => {
            let n = sh.rows();
            // sizes that no number of dimensions of this shape gives
            let fits = |mut len: usize| {
                if len == 0 || len % sh.first != 0 {
                    return false;
                }
                len /= sh.first;
                while sh.dim > 1 && len % sh.dim == 0 {
                    len /= sh.dim;
                }
                len == 1
            };
            let mut rows = match a[0] % 6 {
                0 => n + 1,
                1 => n - 1,
                2 => n + sh.first,
                3 => 0,
                4 => (a[1] % n as u64) as usize,
                _ => n + (a[1] % n as u64) as usize,
            };
            while fits(rows) {
                rows += 1;
            }
            let db: Vec<Plaintext> = (0..rows).map(|i| pt(o, 0, i as u64)).collect();
            let s = PirServer::new(sh.first, sh.dim, &db, params);
            let r = s.decode(w.query.clone(), &w.ek, params);
            format!("{} answer ciphertexts from {rows} records in shape {sh:?}", r.len())
        }
        "rlwes_level" => {
            let k = o.tenant.rings[0].moduli.len();
            let l = 1 + (a[1] % (lv as u64 - 1)) as usize;
            let mut v = vec![x(0, 0).clone(); k];
            if a[3] % 2 == 0 {
                v[(a[4] % k as u64) as usize] = x(0, l).clone();
            } else {
                v = vec![x(0, l).clone(); k];
            }
            format!("{} rows from ciphertexts of level {l}", Ksk::try_from_decomposed_rlwes(params, &v).c0.len())
        }
        "rlwes_count" => {
            let k = o.tenant.rings[0].moduli.len();
            let n = match a[3] % 3 {
                0 => k - 1,
                1 => k + 1,
                _ => 0,
            };
            format!("{} rows where the ring has {k} moduli", Ksk::try_from_decomposed_rlwes(params, &vec![x(0, 0).clone(); n]).c0.len())
        }
        "ksks_mixed" => {
            let k0 = Ksk::new(sk, &poly(o, l1, a[3], true), l1, l1);
            let k1 = match a[4] % 2 {
                0 => Ksk::new(sk, &poly(o, l2, a[3], true), l2, l2),
                _ => {
                    let f = &w.own[foreign];
                    Ksk::new(&f.sk, &poly(f, l1, a[3], true), l1, l1)
                }
            };
            let g = if a[2] % 4 < 2 { RgswCt::try_from_ksks(&k0, &k1) } else { RgswCt::try_from_ksks(&k1, &k0) };
            format!("halves of {} and {} rows", g.ksk0.c0.len(), g.ksk1.c0.len())
        }
        "gal_comps" => {
            let g = GaliosKey::new(sk, &Substitution::new(&ctx(o, l1), 3), l1);
            let y = x(0, l1) * x(0, l1);
            format!("{} components from {}", g.relinearize(&y).cts.len(), y.cts.len())
        }
        "ext_comps" => {
            let g = RgswCt::encrypt(sk, &pt(o, l1, a[3]));
            let y = x(0, l1) * x(0, l1);
            format!("a product from {} components of ring {}", y.cts.len(), RgswCt::external_product(&g, &y).0.context.degree)
        }
        "comp_rep" => {
            let mut y = x(0, l1).clone();
            let i = (a[4] % 2) as usize;
            y.cts[i].change_representation(Representation::PowerBasis);
            let n = match a[3] % 7 {
                0 => (&y + x(0, l1)).cts.len(),
                1 => (x(0, l1) + &y).cts.len(),
                2 => (x(0, l1) - &y).cts.len(),
                3 => (&y * &poly(o, l1, a[3], true)).cts.len(),
                4 => (&y * &pt(o, l1, a[3])).cts.len(),
                5 => (x(0, l1) * &y).cts.len(),
                _ => multiply_with_strategy(&y, x(0, l1), &RelinearizationKey::new(sk, l1)).cts.len(),
            };
            format!("{n} components (case {}, component {i})", a[3] % 7)
        }
        "gal_rep" => {
            let g = GaliosKey::new(sk, &Substitution::new(&ctx(o, l1), 3), l1);
            let mut y = x(0, l1).clone();
            let i = 0;
            y.cts[i].change_representation(Representation::PowerBasis);
            format!("level {} (component {i})", g.relinearize(&y).level)
        }
        "query_level" | "query_params" | "query_comps" | "query_rep" => {
            let mut q = w.query.clone();
            // with one dimension only the first ciphertext is read beyond its count
            let i = if sh.nd == 1 && kind != "query_params" { 0 } else { (a[3] % q.len() as u64) as usize };
            match kind {
                "query_level" => q[i] = x(0, 1 + (a[4] % (lv as u64 - 1)) as usize).clone(),
                "query_params" => q[i] = x(foreign, 0).clone(),
                "query_comps" => {
                    let c = q[i].cts[0].clone();
                    q[i].cts.push(c);
                }
                _ => q[i].cts[(a[4] % 2) as usize].change_representation(Representation::PowerBasis),
            }
            let r = w.server.decode(q, &w.ek, params);
            format!("{} answer ciphertexts (odd ciphertext {i} of {})", r.len(), w.query.len())
        }
        "inner_ring" | "inner_level" => {
            let n = 2 + (a[3] % 3) as usize;
            let (mut cts, mut ps) = (vec![x(0, l1).clone(); n], vec![poly(o, l1, 5, true); n]);
            let i = (a[4] % n as u64) as usize;
            match kind {
                "inner_ring" => ps[i] = if a[2] % 2 == 0 { poly(o, l2, 5, true) } else { poly(o3, l1, 5, true) },
                _ => {
                    cts[i] = x(0, l2).clone();
                    ps[i] = poly(o, l2, 5, true);
                }
            }
            format!("{} components from {n} terms, odd one {i}", omr_inner_product(&cts, &ps).cts.len())
        }
        "encpoly_rep" => format!("level {}", sk.encrypt_poly(&poly(o, l1, a[3], false)).level),
        "enc_params" => format!("level {}", sk.encrypt(&pt(&w.own[foreign], l1, a[3])).level),
        "dec_params" => format!("{:?}...", sk.decrypt(x(foreign, l1)).values.first()),
        "server_params" => {
            let n = sh.rows();
            let odd = match a[0] % 3 {
                0 => 0,
                1 => n - 1,
                _ => (a[1] % n as u64) as usize,
            };
            let all = a[4] % 3 == 0;
            let db: Vec<Plaintext> = (0..n).map(|i| pt(if all || i == odd { &w.own[foreign] } else { o }, 0, i as u64)).collect();
            let s = PirServer::new(sh.first, sh.dim, &db, params);
            let r = s.decode(w.query.clone(), &w.ek, params);
            format!("{} answer ciphertexts (odd record {odd}, all: {all})", r.len())
        }
        "slots_long" | "coeffs_long" => {
            let enc = if kind == "slots_long" { Encoding::SIMD } else { Encoding::Poly };
            let n = o.tenant.cfg.n;
            let len = match a[3] % 4 {
                0 => n + 1,
                1 => n + 2,
                2 => 2 * n,
                _ => n + 1 + (a[4] % n as u64) as usize,
            };
            let p = Plaintext::new(params, &vec![a[1] % o.tenant.cfg.t; len], l1, enc);
            format!("a plaintext of {} coefficients from {len} values", p.values.len())
        }
        "bits_long" => {
            let ell = 1 + (a[1] % 6) as usize;
            let p = PvwParams { n: 4 + (a[2] % 8) as usize, ell, m: 20, q: 65537, variance: 2 };
            let pk = PvwSk::gen_sk(&p).gen_pk(&p);
            let len = ell + 1 + (a[3] % 5) as usize;
            format!("{} components for {len} bits", pk.encrypt(&p, vec![a[4] % 2; len]).b.len())
        }
        "level_out" => {
            let v = values(9, a[3], o.tenant.cfg.n, o.tenant.cfg.t);
            let l = lv + *[0, 1, 7, usize::MAX - lv].get((a[4] % 4) as usize).unwrap();
            format!("level {}", sk.encrypt(&Plaintext::new(params, &v, l, Encoding::Poly)).level)
        }
        // taken modulo t or refused: an empty text says that it was
        "value_out" => {
            let (n, t) = (o.tenant.cfg.n, o.tenant.cfg.t);
            let enc = if a[0] % 2 == 0 { Encoding::SIMD } else { Encoding::Poly };
            let big = beyond(a, n, t);
            let want: Vec<u64> = big.iter().map(|x| x % t).collect();
            let p = Plaintext::new(params, &big, 0, enc.clone());
            let mut got = sk.decrypt(&sk.encrypt(&p));
            got.set_encoding(enc.clone());
            if got.decode() != want {
                return format!("a ciphertext of {:?}... instead of {:?}...", &got.decode()[..4], &want[..4]);
            }
            // the plaintext as a factor
            let mut one = vec![0; n];
            one[0] = 1;
            let mut got = sk.decrypt(&(&sk.encrypt(&Plaintext::new(params, &one, 0, Encoding::Poly)) * &p));
            got.set_encoding(enc);
            if got.decode() != want && o.tenant.fits(0, o.tenant.fresh() * n as f64 * t as f64) {
                return format!("a product of {:?}... instead of {:?}...", &got.decode()[..4], &want[..4]);
            }
            String::new()
        }
        "record_out" => {
            let (n, t) = (o.tenant.cfg.n, o.tenant.cfg.t);
            let idx = sh.rows() / 2;
            let big = beyond(a, n, t);
            let db: Vec<Plaintext> =
                (0..sh.rows()).map(|i| if i == idx || a[0] % 2 == 0 { Plaintext::new(params, &big, 0, Encoding::Poly) } else { pt(o, 0, i as u64) }).collect();
            let r = PirServer::new(sh.first, sh.dim, &db, params).decode(w.query.clone(), &w.ek, params);
            let want: Vec<u64> = big.iter().map(|x| x % t).collect();
            match judge_answer(o, &r, &want, "") {
                Ok(()) => String::new(),
                Err(v) => format!("a wrong answer from records beyond the plaintext modulus{}", v.text),
            }
        }
        "bits_out" => {
            let ell = 1 + (a[1] % 6) as usize;
            let p = PvwParams { n: 4 + (a[2] % 8) as usize, ell, m: 20, q: 65537, variance: 2 };
            let s = PvwSk::gen_sk(&p);
            let pk = s.gen_pk(&p);
            let m: Vec<u64> = (0..ell).map(|i| if i as u64 == a[3] % ell as u64 { *[2, 3, 5, 1 << 20, u64::MAX].get((a[4] % 5) as usize).unwrap() } else { i as u64 % 2 }).collect();
            let got = s.decrypt(&p, &pk.encrypt(&p, m.clone()));
            if got == m.iter().map(|x| x % 2).collect::<Vec<_>>() {
                return String::new();
            }
            format!("{got:?} from {m:?}")
        }
        "coeffs_secret" => {
            let n = o.tenant.cfg.n;
            let s = SecretKey::new(vec![1; n + 1 + (a[3] % n as u64) as usize], params);
            format!("level {}", s.encrypt(&pt(o, l1, a[3])).level)
        }
        "decode_none" => format!("{:?}", sk.decrypt(x(0, l1)).decode().first()),
        _ => panic!("harness: unknown refusal {kind}"),
    }
}

fn good(w: &W, kind: &str, a: &[u64]) -> Res1<()> {
    let o = &w.own[0];
    let (n, t) = (o.tenant.cfg.n, o.tenant.cfg.t);
    match kind {
        "good_query" => {
            let idx = (a[0] % w.sh.rows() as u64) as usize;
            let q = build_query(o, &w.sh, &w.sh.position(idx), w.sh.rows());
            let r = w.server.decode(q, &w.ek, &o.tenant.params);
            judge_answer(o, &r, &w.db[idx], &format!("a well-formed query for record {idx}"))
        }
        "good_eval" => {
            let l = 0;
            let (v1, v2) = (values(a[0], a[1], n, t), values(a[2], a[3], n, t));
            let c1 = o.sk.encrypt(&Plaintext::new(&o.tenant.params, &v1, l, Encoding::Poly));
            let c2 = o.sk.encrypt(&Plaintext::new(&o.tenant.params, &v2, l, Encoding::Poly));
            let s = o.sk.decrypt(&(&c1 + &c2));
            let d = o.sk.decrypt(&(&c1 - &c2));
            if *s.values != *padd(&v1, &v2, t) || *d.values != *psub(&v1, &v2, t) {
                return viol("aftermath", "a well-formed sum or difference is wrong".into());
            }
            Ok(())
        }
        _ => {
            let mut v1 = vec![0; n];
            v1[(a[0] % n as u64) as usize] = 1;
            let v2 = values(a[2], a[3], n, t);
            let c1 = o.sk.encrypt(&Plaintext::new(&o.tenant.params, &v1, 0, Encoding::Poly));
            let c2 = o.sk.encrypt(&Plaintext::new(&o.tenant.params, &v2, 0, Encoding::Poly));
            let k = RelinearizationKey::new(&o.sk, 0);
            let p = multiply_with_strategy(&c1, &c2, &k);
            if *o.sk.decrypt(&p).values != *pmul(&v1, &v2, t) {
                return viol("aftermath", "a well-formed product is wrong".into());
            }
            Ok(())
        }
    }
}

pub fn run(plan: &Plan, cx: &mut Cx) -> Res1<()> {
    let tens: Vec<Arc<Tenant>> = (0..3).map(|i| Tenant::build(&Cfg::get(plan, i))).collect();
    let own = vec![make_owner(plan, cx, 0, &tens[0])?, make_owner(plan, cx, 1, &tens[1])?, make_owner(plan, cx, 2, &tens[2])?];
    let sh = Shape::get(plan, 0);
    let db = make_db(&tens[0], &sh, plan.knob("s.0.dbkind"), plan.knob("s.0.dbseed"));
    let o = own[0].clone();
    let (ek, query) = crate::machine::solo(plan, cx, 900_001, "key and query", || {
        (PirEvalKey::build(&o.sk, &o.tenant.params), build_query(&o, &sh, &sh.position(sh.rows() / 2), sh.rows()))
    })?;
    let lv = tens[0].levels();
    let cts = crate::machine::solo(plan, cx, 900_002, "ciphertexts", || {
        own.iter().map(|o| (0..lv).map(|l| o.sk.encrypt(&pt(o, l, 7))).collect::<Vec<_>>()).collect::<Vec<_>>()
    })?;
    let server = build_server(&tens[0], &sh, &db);
    let w = Arc::new(W { own, sh, db, server, ek, query, cts });
    let jobs: Vec<(u64, JobFn<Result<String, Violation>>)> = plan
        .ops
        .iter()
        .map(|op| {
            let (w, op) = (w.clone(), op.clone());
            let f: JobFn<Result<String, Violation>> = Arc::new(move || {
                if op.kind.starts_with("good") {
                    good(&w, &op.kind, &op.args).map(|_| String::new())
                } else {
                    Ok(bad(&w, &op.kind, &op.args))
                }
            });
            (op.id, f)
        })
        .collect();
    let res = run_jobs(plan, cx, 1, jobs, false)?;
    for (op, (o, _, _)) in plan.ops.iter().zip(res) {
        cx.checks += 1;
        cx.count(&format!("op_{}", op.kind), 1);
        let is_good = op.kind.starts_with("good");
        match o {
            Outcome::Ok(Ok(s)) if s.is_empty() && !is_good => cx.ev(format!("op {} ({}): taken modulo the plaintext modulus", op.id, op.kind)),
            Outcome::Ok(Ok(_)) if is_good => cx.ev(format!("op {} ({}): served", op.id, op.kind)),
            Outcome::Ok(Err(v)) => return Err(v),
            Outcome::Ok(Ok(s)) => return viol("accepted", format!("op {} ({}) was accepted and returned {s}", op.id, op.kind)),
            Outcome::Panicked(m) if is_good => return viol("panic", format!("op {} ({}), a well-formed request next to refused ones, panicked: {m}", op.id, op.kind)),
            Outcome::Panicked(m) if m.contains("harness:") => panic!("{m}"),
            Outcome::Panicked(_) => {
                cx.fired("malformed_request_refused", 1);
                cx.ev(format!("op {} ({}): refused", op.id, op.kind));
            }
            Outcome::EntropyFailed => unreachable!(),
        }
    }
    Ok(())
}
