//! Reference mathematics, written independently of the code under test:
//! schoolbook negacyclic products, automorphisms, CRT, exact noise.

use num_bigint::BigUint;
use num_traits::{One, ToPrimitive, Zero};

pub fn mulmod(a: u64, b: u64, m: u64) -> u64 {
    ((a as u128 * b as u128) % m as u128) as u64
}
pub fn powmod(mut a: u64, mut e: u64, m: u64) -> u64 {
    let mut r = 1 % m;
    a %= m;
    while e > 0 {
        if e & 1 == 1 {
            r = mulmod(r, a, m);
        }
        a = mulmod(a, a, m);
        e >>= 1;
    }
    r
}
pub fn invmod(a: u64, p: u64) -> u64 {
    powmod(a, p - 2, p)
}

/// Deterministic Miller-Rabin for 64-bit integers.
pub fn is_prime(n: u64) -> bool {
    if n < 2 {
        return false;
    }
    for p in [2u64, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37] {
        if n % p == 0 {
            return n == p;
        }
    }
    let s = (n - 1).trailing_zeros();
    let d = (n - 1) >> s;
    'w: for a in [2u64, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37] {
        let mut x = powmod(a, d, n);
        if x == 1 || x == n - 1 {
            continue;
        }
        for _ in 1..s {
            x = mulmod(x, x, n);
            if x == n - 1 {
                continue 'w;
            }
        }
        return false;
    }
    true
}

/// a + b mod t, coefficientwise
pub fn padd(a: &[u64], b: &[u64], t: u64) -> Vec<u64> {
    a.iter().zip(b).map(|(x, y)| ((*x as u128 + *y as u128) % t as u128) as u64).collect()
}
pub fn psub(a: &[u64], b: &[u64], t: u64) -> Vec<u64> {
    a.iter().zip(b).map(|(x, y)| ((*x as u128 + t as u128 - (*y % t) as u128) % t as u128) as u64).collect()
}
pub fn pscale(a: &[u64], k: u64, t: u64) -> Vec<u64> {
    a.iter().map(|x| mulmod(*x, k % t, t)).collect()
}
/// product modulo X^n + 1 and t
pub fn pmul(a: &[u64], b: &[u64], t: u64) -> Vec<u64> {
    let n = a.len();
    assert_eq!(n, b.len());
    let mut pos = vec![0u128; n];
    let mut neg = vec![0u128; n];
    let lazy = t < (1 << 56) / n as u64 * 2 || (t as u128 * t as u128) < (1u128 << 127) / (n as u128 + 1);
    for i in 0..n {
        if a[i] == 0 {
            continue;
        }
        for j in 0..n {
            let mut p = a[i] as u128 * b[j] as u128;
            if !lazy {
                p %= t as u128;
            }
            if i + j < n {
                pos[i + j] += p;
            } else {
                neg[i + j - n] += p;
            }
        }
    }
    (0..n).map(|i| ((pos[i] % t as u128 + t as u128 - neg[i] % t as u128) % t as u128) as u64).collect()
}
/// m(X^k) modulo X^n + 1 and t
pub fn psubst(a: &[u64], k: u64, t: u64) -> Vec<u64> {
    let n = a.len() as u64;
    let mut r = vec![0u64; a.len()];
    for i in 0..n {
        let e = (i as u128 * k as u128 % (2 * n) as u128) as u64;
        let v = a[i as usize];
        let (pos, v) = if e >= n { (e - n, (t - v) % t) } else { (e, v) };
        r[pos as usize] = ((r[pos as usize] as u128 + v as u128) % t as u128) as u64;
    }
    r
}
pub fn isubst(a: &[i64], k: u64) -> Vec<i64> {
    let n = a.len() as u64;
    let mut r = vec![0i64; a.len()];
    for i in 0..n {
        let e = (i as u128 * k as u128 % (2 * n) as u128) as u64;
        if e >= n {
            r[(e - n) as usize] -= a[i as usize];
        } else {
            r[e as usize] += a[i as usize];
        }
    }
    r
}
/// integer negacyclic product
pub fn imul(a: &[i64], b: &[i64]) -> Vec<i64> {
    let n = a.len();
    let mut r = vec![0i64; n];
    for i in 0..n {
        for j in 0..n {
            let p = a[i] * b[j];
            if i + j < n {
                r[i + j] += p;
            } else {
                r[i + j - n] -= p;
            }
        }
    }
    r
}
pub fn norm1(a: &[i64]) -> f64 {
    a.iter().map(|x| x.unsigned_abs() as f64).sum()
}
pub fn norm1u(a: &[u64]) -> f64 {
    a.iter().map(|x| *x as f64).sum()
}

/// Residues of a polynomial: [modulus][coefficient], coefficient order.
pub type Res = Vec<Vec<u64>>;

#[derive(Clone)]
pub struct RefRing {
    pub n: usize,
    pub moduli: Vec<u64>,
    pub q: BigUint,
    pub half: BigUint,
    garner: Vec<BigUint>,
}

impl RefRing {
    pub fn new(n: usize, moduli: &[u64]) -> Self {
        let q = moduli.iter().fold(BigUint::one(), |a, m| a * *m);
        let garner = moduli
            .iter()
            .map(|m| {
                let star = &q / *m;
                let r = (&star % *m).to_u64().unwrap();
                star * invmod(r, *m)
            })
            .collect();
        RefRing { n, moduli: moduli.to_vec(), half: &q >> 1, q, garner }
    }
    pub fn garner(&self, i: usize) -> &BigUint {
        &self.garner[i]
    }
    pub fn lift(&self, r: &Res) -> Vec<BigUint> {
        (0..self.n)
            .map(|j| {
                let mut s = BigUint::zero();
                for i in 0..self.moduli.len() {
                    s += &self.garner[i] * r[i][j];
                }
                s % &self.q
            })
            .collect()
    }
    pub fn residues(&self, v: &[BigUint]) -> Res {
        self.moduli.iter().map(|m| v.iter().map(|x| (x % *m).to_u64().unwrap()).collect()).collect()
    }
    /// c * s for a small integer polynomial s
    pub fn mul_small(&self, c: &Res, s: &[i64]) -> Res {
        let n = self.n;
        let maxs = s.iter().map(|x| x.unsigned_abs()).max().unwrap_or(0);
        assert!((maxs as f64) * (n as f64) < 2f64.powi(63));
        self.moduli
            .iter()
            .zip(c)
            .map(|(m, row)| {
                let mut acc = vec![0i128; n];
                for i in 0..n {
                    if s[i] == 0 {
                        continue;
                    }
                    let si = s[i] as i128;
                    for j in 0..n - i {
                        acc[i + j] += si * row[j] as i128;
                    }
                    for j in n - i..n {
                        acc[i + j - n] -= si * row[j] as i128;
                    }
                }
                acc.iter().map(|x| x.rem_euclid(*m as i128) as u64).collect()
            })
            .collect()
    }
    pub fn mul(&self, a: &Res, b: &Res) -> Res {
        self.moduli.iter().zip(a.iter().zip(b)).map(|(m, (x, y))| pmul(x, y, *m)).collect()
    }
    pub fn add(&self, a: &Res, b: &Res) -> Res {
        self.moduli.iter().zip(a.iter().zip(b)).map(|(m, (x, y))| padd(x, y, *m)).collect()
    }
    pub fn sub(&self, a: &Res, b: &Res) -> Res {
        self.moduli.iter().zip(a.iter().zip(b)).map(|(m, (x, y))| psub(x, y, *m)).collect()
    }
    pub fn from_i64(&self, a: &[i64]) -> Res {
        self.moduli.iter().map(|m| a.iter().map(|x| (*x as i128).rem_euclid(*m as i128) as u64).collect()).collect()
    }
    pub fn from_u64(&self, a: &[u64]) -> Res {
        self.moduli.iter().map(|m| a.iter().map(|x| *x % *m).collect()).collect()
    }
    pub fn scale_big(&self, a: &Res, k: &BigUint) -> Res {
        self.moduli
            .iter()
            .zip(a)
            .map(|(m, row)| {
                let k = (k % *m).to_u64().unwrap();
                row.iter().map(|x| mulmod(*x, k, *m)).collect()
            })
            .collect()
    }
    /// sum of c_i s^i
    pub fn phase(&self, cts: &[Res], s: &[i64]) -> Res {
        let mut acc = cts[0].clone();
        let mut pw = s.to_vec();
        for (i, c) in cts.iter().enumerate().skip(1) {
            acc = self.add(&acc, &self.mul_small(c, &pw));
            if i + 1 < cts.len() {
                pw = imul(&pw, s);
            }
        }
        acc
    }
    /// largest centred absolute value
    pub fn inf_norm(&self, r: &Res) -> BigUint {
        self.lift(r).into_iter().map(|x| if x > self.half { &self.q - x } else { x }).max().unwrap_or_default()
    }
    pub fn centred_f64(&self, x: &BigUint) -> f64 {
        if *x > self.half {
            -(&self.q - x).to_f64().unwrap()
        } else {
            x.to_f64().unwrap()
        }
    }
    /// max over coefficients of |phase - (q/t) m| modulo q, as a rational rounded up
    pub fn noise(&self, phase: &Res, m: &[u64], t: u64) -> f64 {
        let tq = &self.q * t;
        let half = &tq >> 1;
        let mut worst = BigUint::zero();
        for (p, mi) in self.lift(phase).iter().zip(m) {
            let a = p * t;
            let b = &self.q * *mi;
            let d = if a >= b { a - b } else { &tq - (b - a) % &tq } % &tq;
            let d = if d > half { &tq - d } else { d };
            if d > worst {
                worst = d;
            }
        }
        worst.to_f64().unwrap() / t as f64
    }
    pub fn log2q(&self) -> f64 {
        log2big(&self.q)
    }
}

pub fn log2big(x: &BigUint) -> f64 {
    let b = x.bits();
    if b <= 900 {
        return x.to_f64().unwrap_or(0.0).max(1e-300).log2();
    }
    let sh = b - 64;
    (x >> sh).to_f64().unwrap().log2() + sh as f64
}
