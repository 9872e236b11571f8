//! Private retrieval end to end: clients and servers exchange messages over a
//! simulated network with a simulated clock; servers and clients crash and
//! restart, keys are rotated, databases replaced. The PIR roles are the real
//! code; transport, timers, key store and durable database are the harness's.

use crate::gen::*;
use crate::machine::{make_owner, Owner};
use crate::plan::{Op, Plan};
use crate::rt::{self, fnv, mix2, Outcome, Rng, Sched, Step, Stream};
use crate::world::*;
use onion_pir::sim_api::{BfvCipherText, Encoding, PirClient, PirEvalKey, PirServer, Plaintext, Poly, Representation, SecretKey};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

// ---------------------------------------------------------------- shapes and databases

#[derive(Clone, Debug)]
pub struct Shape {
    pub first: usize,
    pub dim: usize,
    pub nd: usize,
}

impl Shape {
    pub fn rows(&self) -> usize {
        self.first * self.dim.pow(self.nd as u32 - 1)
    }
    pub fn slots(&self) -> usize {
        self.first + self.dim * (self.nd - 1)
    }
    pub fn position(&self, mut idx: usize) -> Vec<usize> {
        let mut p = vec![idx % self.first];
        idx /= self.first;
        for _ in 1..self.nd {
            p.push(idx % self.dim);
            idx /= self.dim;
        }
        p
    }
    pub fn put(&self, p: &mut Plan, i: usize) {
        p.set(&format!("s.{i}.first"), self.first as u64);
        p.set(&format!("s.{i}.dim"), self.dim as u64);
        p.set(&format!("s.{i}.nd"), self.nd as u64);
    }
    pub fn get(p: &Plan, i: usize) -> Shape {
        Shape {
            first: p.knob(&format!("s.{i}.first")) as usize,
            dim: p.knob(&format!("s.{i}.dim")) as usize,
            nd: p.knob(&format!("s.{i}.nd")) as usize,
        }
    }
}

pub fn gen_shape(rng: &mut Rng, n: usize, max_rows: usize) -> Shape {
    let full = rng.chance(20);
    let mut tries = 0;
    loop {
        let any = rng.chance(25);
        let s = Shape {
            first: if any { rng.range(1, n as u64) as usize } else { *rng.pick(&[1, 2, 3, 4, 4, 4, 5, 7, 8, 8, 16, 32]) },
            dim: if any { rng.range(1, (n as u64 / 2).min(24)) as usize } else { *rng.pick(&[1, 2, 2, 2, 3, 3, 4, 4, 4, 5, 5, 7, 7, 9]) },
            nd: *rng.pick(&[1, 2, 2, 3, 3, 4, 5]) as usize,
        };
        // sometimes as full as the ring allows
        let fill = tries < 60 && full;
        tries += 1;
        if s.rows() <= max_rows && s.slots() <= n && (!fill || s.slots() == n) {
            return s;
        }
    }
}

/// Worst-case noise of an answer.
pub fn answer_bound(cfg: &Cfg, sh: &Shape, s1: f64) -> f64 {
    let n = cfg.n as f64;
    let v = cfg.v as f64;
    let sumq: f64 = cfg.sizes.iter().map(|s| 2f64.powi(*s as i32)).sum();
    let e = sumq * n * 2.0 * v;
    let r1 = 2.0 * v + (n - 1.0) * e;
    let r0 = s1 * r1 + 2.0 * e;
    let mut b = sh.first as f64 * (r1 + 2.0) * n * (cfg.t as f64);
    for _ in 1..sh.nd {
        b = b + sh.dim as f64 * (sumq * n * (r0 + r1));
    }
    b
}

fn roomy(cfg: &Cfg, sh: &Shape) -> bool {
    let logq: f64 = cfg.sizes.iter().map(|s| *s as f64 - 1.05).sum();
    let b = answer_bound(cfg, sh, cfg.n as f64 * 2.0 * cfg.v as f64);
    b.log2() + (2.0 * cfg.t as f64).log2() + 1.0 < logq
}

pub fn gen_service(rng: &mut Rng, ns: &[usize], max_rows: usize) -> (Cfg, Shape) {
    loop {
        let tb = *rng.pick(&[12, 17, 21, 21, 30]);
        let ks = if ns[0] >= 128 { (2, 4) } else { (2, 6) };
        let cfg = gen_cfg(rng, ks, ns, tb);
        let sh = gen_shape(rng, cfg.n, max_rows);
        if roomy(&cfg, &sh) {
            return (cfg, sh);
        }
    }
}

pub fn make_db(ten: &Tenant, sh: &Shape, kind: u64, seed: u64) -> Vec<Vec<u64>> {
    let (n, t) = (ten.cfg.n, ten.cfg.t);
    (0..sh.rows())
        .map(|i| {
            let s = mix2(seed, i as u64);
            match kind % 7 {
                // short records
                6 => (0..n as u64).map(|j| if j < 1 + s % 4 { mix2(s, j) % t } else { 0 }).collect(),
                // every record names its index
                0 => (0..n as u64).map(|j| (i as u64 * 31 + j + seed) % t).collect(),
                1 => values(s, s, n, t),
                2 => vec![t - 1; n],
                3 => {
                    let mut v = vec![0; n];
                    v[i % n] = 1 + seed % (t - 1);
                    v
                }
                _ => (0..n as u64).map(|j| mix2(s, j) % t).collect(),
            }
        })
        .collect()
}

/// What a client sends for an encoded position.
pub fn build_query(own: &Owner, sh: &Shape, position: &[usize], rows: usize) -> Vec<BfvCipherText> {
    let params = &own.tenant.params;
    let enc = PirClient::new(sh.first, sh.dim).encode(position.to_vec(), rows, params, &own.sk);
    let mut q = vec![own.sk.encrypt(&Plaintext::new(params, &enc, 0, Encoding::Poly))];
    let ring = &own.tenant.rings[0];
    for i in 0..ring.moduli.len() {
        let mut p = Poly::try_from_vec_u64(&params.q_ctxs[0], &enc[sh.first..]);
        p.change_representation(Representation::Ntt);
        p *= ring.garner(i);
        q.push(own.sk.encrypt_poly(&p));
    }
    q
}

pub fn build_server(ten: &Tenant, sh: &Shape, db: &[Vec<u64>]) -> PirServer {
    // every other record is handed over without its trailing zeros
    let pts: Vec<Plaintext> = db
        .iter()
        .enumerate()
        .map(|(i, v)| {
            let len = v.len() - if i % 2 == 1 { v.iter().rev().take_while(|x| **x == 0).count() } else { 0 };
            Plaintext::new(&ten.params, &v[..len.max(1)].to_vec(), 0, Encoding::Poly)
        })
        .collect();
    PirServer::new(sh.first, sh.dim, &pts, &ten.params)
}

pub fn dig_cts(c: &[BfvCipherText]) -> u64 {
    c.iter().fold(c.len() as u64, |h, x| fnv(h, dig_ct(x)))
}

/// Checks an answer as its client sees it.
pub fn judge_answer(own: &Owner, cts: &[BfvCipherText], want: &[u64], what: &str) -> Res1<()> {
    if cts.len() != 1 {
        return viol("answer-count", format!("{what}: {} answer ciphertexts where one is due", cts.len()));
    }
    let got = own.sk.decrypt(&cts[0]);
    if *got.values != *want {
        let j = (0..want.len()).find(|j| got.values.get(*j) != Some(&want[*j])).unwrap_or(0);
        return viol("record", format!("{what}: coefficient {j} of the answer is {:?}, the record has {}", got.values.get(j), want[j]));
    }
    Ok(())
}

// ---------------------------------------------------------------- plan

const EK: u64 = 2_000_000;
/// evaluation keys a client makes at most
const MAX_EVS: u64 = 8;

pub fn gen(p: &mut Plan, rng: &mut Rng, prop: &str, deep: bool) {
    let big = rng.below(25) == 0;
    // rings nearer the deployed ones, and databases much longer than the others
    let huge = !big && rng.below(150) == 0;
    let long = !big && !huge && rng.below(30) == 0;
    let services = if huge || long || rng.chance(70) { 1 } else { 2 };
    let clients = if huge { 1 } else { rng.range(1, if long { 2 } else { 4 }).max(services) };
    p.set("services", services);
    p.set("clients", clients);
    // one service asked over and over
    let marathon = !big && !huge && !long && rng.below(40) == 0;
    let ns: &[usize] = if big {
        &[128]
    } else if huge {
        &[256, 256, 512]
    } else if long {
        &[32, 64]
    } else if marathon {
        &[8]
    } else {
        &[8, 16, 16, 32, 32, 64]
    };
    let mut cfgs = vec![];
    for i in 0..services as usize {
        let rows = if marathon || huge { 16 } else if long { 700 } else if big { 64 } else if deep { 96 } else { *rng.pick(&[48, 48, 72]) };
        let (cfg, sh) = loop {
            let (cfg, sh) = gen_service(rng, ns, rows);
            if !long || sh.rows() >= 150 {
                break (cfg, sh);
            }
        };
        cfg.put(p, i);
        sh.put(p, i);
        p.set(&format!("s.{i}.dbkind"), rng.below(7));
        p.set(&format!("s.{i}.dbseed"), rng.next() >> 20);
        p.set(&format!("s.{i}.slots"), rng.range(1, 3));
        p.set(&format!("s.{i}.pool"), rng.chance(50) as u64);
        cfgs.push((cfg, sh));
    }
    schedule_knobs(p, rng, 4);
    if rng.chance(80) {
        p.set("workers", rng.range(2, 4));
        p.set("preempt", *rng.pick(&[50, 300, 1500]));
    }
    p.set("horizon", 20_000_000);
    // swarm: which faults this run may use
    let rate = *rng.pick(&[0, 0, 30, 80]);
    let lossy = rng.chance(60);
    let dups = rng.chance(60);
    let slow = rng.chance(60);
    let crashes = rng.chance(55);
    let parts = rng.chance(35);
    for c in 0..clients {
        let cfg = &cfgs[(c % services) as usize].0;
        for e in 0..2 {
            owner_keys(p, rng, c * 16 + e, cfg, rate);
        }
        for e in 0..MAX_EVS {
            gen_entropy_faults(p, rng, EK + c * 16 + e, cfg, rate, if rate > 0 { 10 } else { 0 });
        }
        let mut at = rng.below(300_000);
        for _ in 0..if marathon { rng.range(20, 60) } else if huge || long { rng.range(1, 2) } else { rng.range(1, if deep { 6 } else { 4 }) } {
            let kind = if rng.chance(80) { "query" } else { *rng.pick(&["rotate", "lose", "refresh", "refresh"]) };
            // corners of the hypercube more often than its inside
            let idx = match rng.below(4) {
                0 => 0,
                1 => u64::MAX >> 8,
                _ => rng.next() >> 16,
            };
            let id = p.op(c, kind, vec![at, idx]);
            gen_entropy_faults(p, rng, id, cfg, rate, if rate > 0 { 10 } else { 0 });
            at += rng.below(if marathon { 120_000 } else { 2_000_000 });
        }
    }
    for s in 0..services {
        for _ in 0..*rng.pick(&[0, 0, 1, 2]) {
            let at = rng.below(6_000_000);
            p.op(100 + s, "newdb", vec![at, rng.below(7), rng.next() >> 20]);
        }
        if crashes {
            for _ in 0..rng.range(1, 3) {
                let at = rng.below(8_000_000);
                p.fault("crash", vec![s, at, 1_000 + rng.below(900_000)]);
            }
        }
    }
    if parts {
        for _ in 0..rng.range(1, 2) {
            let at = rng.below(5_000_000);
            p.fault("partition", vec![rng.below(clients), at, at + rng.below(4_000_000)]);
        }
    }
    for m in 0..40 {
        if lossy && rng.chance(15) {
            p.fault("drop", vec![m]);
        }
        if dups && rng.chance(15) {
            p.fault("dup", vec![m, rng.below(1_500_000)]);
        }
        if slow && rng.chance(15) {
            p.fault("delay", vec![m, rng.below(2_500_000)]);
        }
    }
    if rng.chance(30) {
        p.fault("stalljob", vec![rng.below(6)]);
    }
    // requests also processed under some other client's key
    if rng.chance(25) {
        for _ in 0..rng.range(1, 3) {
            p.fault("mixkey", vec![rng.below(10)]);
        }
    }
    // short-lived services beside the long-lived ones: set up, used once, gone
    if rng.chance(30) {
        for g in 0..rng.range(1, 6) {
            let (cfg, sh) = loop {
                let cfg = vary(rng, &cfgs[0].0);
                let sh = if rng.chance(50) { cfgs[0].1.clone() } else { gen_shape(rng, cfg.n, 24) };
                if cfg.n <= 32 && cfg.sizes.len() >= 2 && sh.rows() <= 24 && sh.slots() <= cfg.n && roomy(&cfg, &sh) {
                    break (cfg, sh);
                }
                let (cfg, sh) = gen_service(rng, &[8, 16, 32], 24);
                if rng.chance(50) {
                    break (cfg, sh);
                }
            };
            let idx = 1000 + g as usize;
            cfg.put(p, idx);
            sh.put(p, idx);
            let at = rng.below(6_000_000);
            let id = p.op(200, "guest", vec![at, rng.next() >> 16, idx as u64, rng.below(7)]);
            gen_entropy_faults(p, rng, id, &cfg, rate, if rate > 0 { 10 } else { 0 });
        }
    }
    p.set("verify", if prop == "C02" { 4 } else { 0 });
}

// ---------------------------------------------------------------- simulation

#[derive(Clone)]
enum Msg {
    PutKey { client: usize, epoch: u64, ev: u64 },
    KeyAck { client: usize, epoch: u64, ev: u64 },
    Query { client: usize, qid: u64, epoch: u64, cts: Arc<Vec<BfvCipherText>> },
    NeedKey { client: usize, epoch: u64 },
    Answer { client: usize, qid: u64, version: u64, cts: Arc<Vec<BfvCipherText>> },
}

impl Msg {
    fn name(&self) -> String {
        match self {
            Msg::PutKey { client, epoch, ev } => format!("PutKey(client {client}, epoch {epoch}, key {ev})"),
            Msg::KeyAck { client, epoch, ev } => format!("KeyAck(client {client}, epoch {epoch}, key {ev})"),
            Msg::Query { client, qid, .. } => format!("Query(client {client}, {qid})"),
            Msg::NeedKey { client, epoch } => format!("NeedKey(client {client}, epoch {epoch})"),
            Msg::Answer { client, qid, version, .. } => format!("Answer(client {client}, {qid}, db {version})"),
        }
    }
}

enum Ev {
    Start(Op),
    ToServer(usize, Msg),
    ToClient(usize, Msg),
    Retry(usize, u64, u64),
    Again(usize),
    JobDone(usize),
    Crash(usize, u64),
    Restart(usize),
    NewDb(usize, u64, u64),
}

struct Service {
    ten: Arc<Tenant>,
    sh: Shape,
    /// durable
    dbs: Vec<Arc<Vec<Vec<u64>>>>,
    /// volatile
    up: bool,
    server: Option<Arc<PirServer>>,
    version: u64,
    /// least recently stored first
    keys: Vec<StoredKey>,
    /// retired keys whose storage new ones are put into
    spare: Option<Vec<Arc<PirEvalKey>>>,
    slots: usize,
}

impl Service {
    fn retire(&mut self, i: usize) {
        let k = self.keys.remove(i);
        if let Some(s) = &mut self.spare {
            s.push(k.3);
        }
    }
    fn store(&mut self, mut key: PirEvalKey) -> Arc<PirEvalKey> {
        if let Some(spare) = &mut self.spare {
            for i in (0..spare.len()).rev() {
                // nobody uses it any more
                if let Some(old) = Arc::get_mut(&mut spare[i]) {
                    std::mem::swap(old, &mut key);
                    return spare.remove(i);
                }
            }
        }
        Arc::new(key)
    }
}

/// (client, epoch, evaluation key of that epoch)
type StoredKey = (usize, u64, u64, Arc<PirEvalKey>);

/// One secret key of a client.
struct Epoch {
    own: Owner,
    /// evaluation keys made for it, oldest first; numbered per client
    evs: Vec<u64>,
    /// when the key was last sent on demand
    sent: u64,
}

struct Client {
    svc: usize,
    epochs: Vec<Epoch>,
    evs: u64,
}

struct Pending {
    client: usize,
    epoch: u64,
    idx: usize,
    cts: Arc<Vec<BfvCipherText>>,
    backoff: u64,
    op: u64,
    done: bool,
    answers: u64,
}

struct Serving {
    svc: usize,
    client: usize,
    qid: u64,
    version: u64,
    /// the evaluation key used: owner, its epoch, number
    key: (usize, u64, u64),
    boot: u64,
    finished: Option<Vec<BfvCipherText>>,
}

fn client_job<R: Send + 'static>(
    plan: &Plan,
    cx: &mut Cx,
    sched: &mut Sched,
    done: &mut BTreeMap<usize, (Outcome<Vec<BfvCipherText>>, Stream)>,
    atts: &mut BTreeMap<u64, u64>,
    id: u64,
    what: &str,
    f: Arc<dyn Fn() -> R + Send + Sync>,
) -> Res1<R> {
    for attempt in plan.knob_or(&format!("att.{id}"), 0)..4 {
        let f = f.clone();
        let s = stream_for(plan, id, attempt);
        let job = usize::MAX - 1;
        sched.submit(job, move || rt::with_stream(s, move || f()));
        let (o, s) = loop {
            match sched.step() {
                Step::Done(j, any) if j == job => break *any.downcast::<(Outcome<R>, Stream)>().expect("client job"),
                Step::Done(j, any) => {
                    done.insert(j, *any.downcast().expect("server job"));
                }
                Step::Progress => {}
                Step::Idle => {
                    if !sched.drain() {
                        return viol("no-progress", format!("{what} never completed"));
                    }
                }
                Step::Deadlock => return viol("deadlock", format!("{what}: all callers wait for a lock")),
            }
        };
        cx.take_stream(&s);
        match o {
            Outcome::Ok(r) => {
                if attempt > 0 {
                    atts.insert(id, attempt);
                }
                return Ok(r);
            }
            Outcome::EntropyFailed => cx.count("retries", 1),
            Outcome::Panicked(m) => return viol("panic", format!("{what} panicked: {m}")),
        }
    }
    viol("retry", format!("{what} kept failing after the entropy source recovered"))
}

fn services(plan: &Plan) -> Vec<Service> {
    (0..plan.knob("services") as usize)
        .map(|i| {
            let ten = Tenant::build(&Cfg::get(plan, i));
            let sh = Shape::get(plan, i);
            let db = make_db(&ten, &sh, plan.knob(&format!("s.{i}.dbkind")), plan.knob(&format!("s.{i}.dbseed")));
            Service { ten, sh, dbs: vec![Arc::new(db)], up: true, server: None, version: 0, keys: vec![], spare: (plan.knob_or(&format!("s.{i}.pool"), 0) > 0).then(Vec::new), slots: plan.knob(&format!("s.{i}.slots")) as usize }
        })
        .collect()
}

/// One request alone in a pristine process: the reference for C02.
fn run_solo(plan: &Plan, cx: &mut Cx) -> Res1<()> {
    let op = plan.knob("solo") ;
    let o = plan.ops.iter().find(|x| x.id == op).expect("operation").clone();
    let c = o.actor as usize;
    let mut svcs = services(plan);
    let svc = &mut svcs[c % plan.knob("services") as usize];
    let epoch = plan.knob("solo.epoch");
    let ver = plan.knob("solo.version");
    let mut v = 0;
    for d in newdbs(plan) {
        if d.1 == c % plan.knob("services") as usize {
            v += 1;
            if v == ver {
                svc.dbs[0] = Arc::new(make_db(&svc.ten, &svc.sh, d.2, d.3));
            }
        }
    }
    let own = make_owner(plan, cx, c as u64 * 16 + epoch, &svc.ten)?;
    let mut p2 = own.clone();
    let (kc, ke, kv) = (plan.knob("solo.kc"), plan.knob("solo.ke"), plan.knob("solo.kv"));
    if (kc, ke) != (c as u64, epoch) {
        p2 = make_owner(plan, cx, kc * 16 + ke, &svc.ten)?;
    }
    let ek = crate::machine::solo(plan, cx, EK + kc * 16 + kv, "evaluation key", || PirEvalKey::build(&p2.sk, &p2.tenant.params))?;
    let idx = (o.args[1] % svc.sh.rows() as u64) as usize;
    let idx = if o.args[1] == u64::MAX >> 8 { svc.sh.rows() - 1 } else { idx };
    let q = crate::machine::solo(plan, cx, op, "query", || build_query(&own, &svc.sh, &svc.sh.position(idx), svc.sh.rows()))?;
    let server = build_server(&svc.ten, &svc.sh, &svc.dbs[0]);
    let (o, _) = rt::with_stream(Stream::new(1), || server.decode(q, &ek, &svc.ten.params));
    let a = must(o, "answering alone")?;
    cx.digests.push((op, dig_cts(&a)));
    Ok(())
}

/// Parameters, key, server, one query and its answer, all dropped at the end.
fn guest(cfg: &Cfg, sh: &Shape, pick: u64, kind: u64, seed: u64) -> Res1<u64> {
    let ten = Tenant::build(cfg);
    let own = Owner::new(&ten, SecretKey::generate(&ten.params));
    let ek = PirEvalKey::build(&own.sk, &ten.params);
    let db = make_db(&ten, sh, kind, seed);
    let server = build_server(&ten, sh, &db);
    let idx = (pick % sh.rows() as u64) as usize;
    let q = build_query(&own, sh, &sh.position(idx), sh.rows());
    let a = server.decode(q, &ek, &ten.params);
    judge_answer(&own, &a, &db[idx], &format!("short-lived service ({}), record {idx}", cfg.describe()))?;
    Ok(dig_cts(&a))
}

/// Database replacements in the order they take effect: (time, service, kind, seed).
fn newdbs(plan: &Plan) -> Vec<(u64, usize, u64, u64)> {
    let mut v: Vec<(u64, u64, usize, u64, u64)> = plan
        .ops
        .iter()
        .filter(|o| o.kind == "newdb")
        .map(|o| (o.args[0], o.id, (o.actor - 100) as usize, o.args[1], o.args[2]))
        .collect();
    v.sort();
    v.into_iter().map(|x| (x.0, x.2, x.3, x.4)).collect()
}

pub fn run(plan: &Plan, cx: &mut Cx) -> Res1<()> {
    if plan.knob_or("solo", 0) > 0 {
        return run_solo(plan, cx);
    }
    let horizon = plan.knob("horizon");
    let mut net = Rng::new(mix2(plan.knob("sched"), 0x6e65));
    let mut svcs = services(plan);
    let ns = svcs.len();
    for s in svcs.iter_mut() {
        s.server = Some(Arc::new(build_server(&s.ten, &s.sh, &s.dbs[0])));
    }
    let nc = plan.knob("clients") as usize;
    let mut sched = Sched::new(plan.knob("workers") as usize, plan.knob("sched"), plan.knob("preempt"));
    let mut clients: Vec<Client> = (0..nc).map(|c| Client { svc: c % ns, epochs: vec![], evs: 0 }).collect();
    let mut events: BTreeMap<(u64, u64), Ev> = BTreeMap::new();
    let mut seq = 0u64;
    let mut push = |events: &mut BTreeMap<(u64, u64), Ev>, t: u64, e: Ev| {
        seq += 1;
        events.insert((t, seq), e);
    };
    for o in &plan.ops {
        if o.kind != "newdb" {
            push(&mut events, o.args[0], Ev::Start(o.clone()));
        }
    }
    for (t, s, k, seed) in newdbs(plan) {
        if s < ns {
            push(&mut events, t, Ev::NewDb(s, k, seed));
        }
    }
    for f in &plan.faults {
        if f.kind == "crash" && (f.args[0] as usize) < ns && f.args[1] < horizon {
            push(&mut events, f.args[1], Ev::Crash(f.args[0] as usize, f.args[2]));
        }
    }
    let mut pend: BTreeMap<u64, Pending> = BTreeMap::new();
    let mut serving: BTreeMap<usize, Serving> = BTreeMap::new();
    let mut done: BTreeMap<usize, (Outcome<Vec<BfvCipherText>>, Stream)> = BTreeMap::new();
    let mut atts: BTreeMap<u64, u64> = BTreeMap::new();
    let mut boot = vec![0u64; ns];
    let mut next_job = 0usize;
    let mut msgno = 0u64;
    let mut qids = 0u64;
    // (operation, db version, evaluation key) -> digest of the answer
    let mut seen: Seen = BTreeMap::new();
    let mut overlapped: BTreeSet<(u64, u64)> = BTreeSet::new();
    let mut processed = 0u64;
    let mut now = 0u64;
    let stall_jobs: Vec<u64> = plan.faults.iter().filter(|f| f.kind == "stalljob").map(|f| f.args[0]).collect();
    let mut steps = 0u64;

    while let Some((&(t, s), _)) = events.iter().next() {
        let ev = events.remove(&(t, s)).unwrap();
        now = t;
        steps += 1;
        if steps > 20_000 || now > horizon + 120_000_000 {
            let left = pend.values().filter(|p| !p.done).count();
            return viol("no-progress", format!("{left} queries unanswered {} s after faults stopped", (now.saturating_sub(horizon)) / 1_000_000));
        }
        // messages to send as a result: (to server?, index, message)
        let mut out: Vec<(bool, usize, Msg)> = vec![];
        match ev {
            Ev::NewDb(s, kind, seed) => {
                let svc = &mut svcs[s];
                let db = make_db(&svc.ten, &svc.sh, kind, seed);
                svc.dbs.push(Arc::new(db));
                svc.version += 1;
                if svc.up {
                    svc.server = Some(Arc::new(build_server(&svc.ten, &svc.sh, &svc.dbs[svc.version as usize])));
                }
                cx.count("probe_database_replaced", 1);
                cx.ev(format!("{now} us: service {s} switches to database {}", svc.version));
            }
            Ev::Start(op) if op.kind == "guest" => {
                let cfg = Cfg::get(plan, op.args[2] as usize);
                let sh = Shape::get(plan, op.args[2] as usize);
                let (pick, kind, seed) = (op.args[1], op.args[3], op.id);
                let d = client_job(plan, cx, &mut sched, &mut done, &mut atts, op.id, "a short-lived service", Arc::new(move || guest(&cfg, &sh, pick, kind, seed)))??;
                cx.count("op_guest", 1);
                cx.checks += 1;
                cx.ev(format!("{now} us: short-lived service {} answered with digest {d:016x}", op.id));
            }
            Ev::Start(op) => {
                let c = op.actor as usize % nc;
                let svc = clients[c].svc;
                if op.kind == "lose" {
                    // the client forgets its unfinished queries
                    let mine: Vec<u64> = pend.iter().filter(|(_, p)| p.client == c && !p.done).map(|x| *x.0).collect();
                    for q in mine {
                        pend.remove(&q);
                        cx.fired("client_crash_with_query_in_flight", 1);
                    }
                    cx.ev(format!("{now} us: client {c} restarts"));
                    continue;
                }
                let rotate = op.kind == "rotate" && clients[c].epochs.len() < 2;
                let refresh = op.kind == "refresh" && !clients[c].epochs.is_empty() && clients[c].evs < MAX_EVS - 1;
                if rotate || refresh || clients[c].epochs.is_empty() {
                    let own = if refresh {
                        clients[c].epochs.last().unwrap().own.clone()
                    } else {
                        make_owner(plan, cx, (c * 16 + clients[c].epochs.len()) as u64, &svcs[svc].ten)?
                    };
                    let v = clients[c].evs;
                    clients[c].evs += 1;
                    let o2 = own.clone();
                    let _key = client_job(plan, cx, &mut sched, &mut done, &mut atts, EK + c as u64 * 16 + v, "evaluation key generation", Arc::new(move || PirEvalKey::build(&o2.sk, &o2.tenant.params)))?;
                    if refresh {
                        // a new evaluation key for the same secret key: it replaces the old one,
                        // and questions already asked are asked again
                        clients[c].epochs.last_mut().unwrap().evs.push(v);
                        cx.count("probe_evaluation_key_renewed", 1);
                        let e = clients[c].epochs.len() as u64 - 1;
                        cx.ev(format!("{now} us: client {c} renews its evaluation key (epoch {e}, key {v})"));
                        out.push((true, svc, Msg::PutKey { client: c, epoch: e, ev: v }));
                        push(&mut events, now + 70_000, Ev::Again(c));
                    } else {
                        clients[c].epochs.push(Epoch { own, evs: vec![v], sent: 0 });
                    }
                    cx.count("op_keygen", 1);
                    if rotate {
                        cx.count("probe_key_rotated", 1);
                    }
                }
                if op.kind != "query" {
                    continue;
                }
                let e = clients[c].epochs.len() as u64 - 1;
                let own = clients[c].epochs[e as usize].own.clone();
                let sh = svcs[svc].sh.clone();
                let idx = if op.args[1] == u64::MAX >> 8 { sh.rows() - 1 } else { (op.args[1] % sh.rows() as u64) as usize };
                let pos = sh.position(idx);
                let p2 = pos.clone();
                let q = client_job(plan, cx, &mut sched, &mut done, &mut atts, op.id, "query encoding and encryption", Arc::new(move || build_query(&own, &sh, &p2, sh.rows())))?;
                qids += 1;
                cx.count("op_query", 1);
                cx.ev(format!("{now} us: client {c} asks for {pos:?} as query {qids} (epoch {e})"));
                let cts = Arc::new(q);
                pend.insert(qids, Pending { client: c, epoch: e, idx, cts: cts.clone(), backoff: 400_000, op: op.id, done: false, answers: 0 });
                push(&mut events, now + 400_000, Ev::Retry(c, qids, 0));
                if net.chance(50) {
                    let ev = *clients[c].epochs[e as usize].evs.last().unwrap();
                    out.push((true, svc, Msg::PutKey { client: c, epoch: e, ev }));
                }
                out.push((true, svc, Msg::Query { client: c, qid: qids, epoch: e, cts }));
            }
            Ev::Retry(c, q, _) => {
                if let Some(p) = pend.get_mut(&q) {
                    if !p.done {
                        p.backoff = (p.backoff * 2).min(4_000_000);
                        cx.count("probe_query_retransmitted", 1);
                        out.push((true, clients[c].svc, Msg::Query { client: c, qid: q, epoch: p.epoch, cts: p.cts.clone() }));
                        push(&mut events, now + p.backoff + net.below(50_000), Ev::Retry(c, q, 0));
                    }
                }
            }
            Ev::Again(c) => {
                let e = clients[c].epochs.len() as u64 - 1;
                for (q, p) in pend.iter().rev().filter(|(_, p)| p.client == c && p.epoch == e).take(3) {
                    cx.count("probe_query_repeated", 1);
                    out.push((true, clients[c].svc, Msg::Query { client: c, qid: *q, epoch: e, cts: p.cts.clone() }));
                }
            }
            Ev::ToServer(s, m) => {
                let svc = &mut svcs[s];
                if !svc.up {
                    cx.fired("message_lost_server_down", 1);
                    continue;
                }
                match m {
                    Msg::PutKey { client, epoch, ev } => {
                        // the server holds its own copy: the same key from the same entropy,
                        // at an address of its own; the store is small; a newer key stays
                        if svc.keys.iter().any(|k| (k.0, k.1) == (client, epoch) && k.2 > ev) {
                            continue;
                        }
                        if let Some(i) = svc.keys.iter().position(|k| (k.0, k.1) == (client, epoch)) {
                            svc.retire(i);
                        }
                        while svc.keys.len() >= svc.slots {
                            svc.retire(0);
                            cx.count("probe_key_evicted", 1);
                        }
                        let id = EK + client as u64 * 16 + ev;
                        let o2 = clients[client].epochs[epoch as usize].own.clone();
                        let st = stream_for(plan, id, atts.get(&id).copied().unwrap_or(0));
                        let (o, _) = rt::with_stream(st, move || PirEvalKey::build(&o2.sk, &o2.tenant.params));
                        let key = svc.store(must(o, "unpacking an evaluation key")?);
                        svc.keys.push((client, epoch, ev, key));
                        out.push((false, client, Msg::KeyAck { client, epoch, ev }));
                    }
                    Msg::Query { client, qid, epoch, cts } => match svc.keys.iter().find(|k| (k.0, k.1) == (client, epoch)).cloned() {
                        None => out.push((false, client, Msg::NeedKey { client, epoch })),
                        Some(key) => {
                            let mut with = vec![key];
                            if plan.faults.iter().any(|f| f.kind == "mixkey" && f.args[0] == processed) {
                                if let Some(k) = svc.keys.iter().find(|k| (k.0, k.1) != (client, epoch)) {
                                    cx.fired("query_also_under_foreign_key", 1);
                                    with.insert((now % 2) as usize, k.clone());
                                }
                            }
                            processed += 1;
                            for (kc, ke, kv, key) in with {
                                next_job += 1;
                                let (server, params) = (svc.server.clone().unwrap(), svc.ten.params.clone());
                                let c2 = cts.clone();
                                let st = Stream::new(mix2(plan.seed, next_job as u64));
                                sched.submit(next_job, move || rt::with_stream(st, move || server.decode((*c2).clone(), &key, &params)));
                                if serving.values().any(|x| x.finished.is_none()) {
                                    cx.count("probe_requests_overlap", 1);
                                    overlapped.insert((qid, svc.version));
                                }
                                serving.insert(next_job, Serving { svc: s, client, qid, version: svc.version, key: (kc, ke, kv), boot: boot[s], finished: None });
                                push(&mut events, now + 5_000 + net.below(700_000), Ev::JobDone(next_job));
                            }
                        }
                    },
                    _ => unreachable!(),
                }
            }
            Ev::JobDone(j) => {
                let Some(sv) = serving.get(&j) else { continue };
                if sv.boot != boot[sv.svc] {
                    serving.remove(&j);
                    continue;
                }
                // let the simulated threads run until this request is finished
                let mut stalled = false;
                while !done.contains_key(&j) {
                    match sched.step() {
                        Step::Done(k, any) => {
                            done.insert(k, *any.downcast().expect("server job"));
                        }
                        Step::Progress => {
                            if !stalled && stall_jobs.contains(&(j as u64)) && sched.in_flight().len() > 1 {
                                stalled = sched.stall(j);
                                if stalled {
                                    break;
                                }
                            }
                        }
                        Step::Idle => {
                            if !sched.drain() {
                                return viol("no-progress", "a request was never answered".into());
                            }
                        }
                        Step::Deadlock => return viol("deadlock", "all requests wait for a lock".into()),
                    }
                }
                if stalled {
                    push(&mut events, now + 1_000_000, Ev::JobDone(j));
                    continue;
                }
                let sv = serving.remove(&j).unwrap();
                let (o, st) = done.remove(&j).unwrap();
                cx.take_stream(&st);
                let a = must(o, &format!("answering query {} of client {}", sv.qid, sv.client))?;
                cx.count("op_decode", 1);
                cx.checks += 1;
                if let Some(p) = pend.get(&sv.qid) {
                    let d = dig_cts(&a);
                    match seen.get(&(p.op, sv.version, sv.key)) {
                        Some(x) if *x != d => {
                            return viol("answer-differs", format!("query {} of client {} on database {} got two different answers", sv.qid, sv.client, sv.version));
                        }
                        Some(_) => cx.count("probe_duplicate_answer_compared", 1),
                        None => {
                            seen.insert((p.op, sv.version, sv.key), d);
                        }
                    }
                    cx.ev(format!("{now} us: service {} answers query {} with digest {d:016x}", sv.svc, sv.qid));
                }
                if (sv.key.0, sv.key.1) != (sv.client, pend.get(&sv.qid).map_or(sv.key.1, |p| p.epoch)) {
                    // nobody can decrypt this one
                    continue;
                }
                out.push((false, sv.client, Msg::Answer { client: sv.client, qid: sv.qid, version: sv.version, cts: Arc::new(a) }));
            }
            Ev::ToClient(c, m) => match m {
                Msg::KeyAck { .. } => {}
                Msg::NeedKey { epoch, .. } => {
                    if let Some(e) = clients[c].epochs.get_mut(epoch as usize) {
                        if e.sent > 0 && now < e.sent + 150_000 {
                            continue;
                        }
                        e.sent = now;
                        let ev = *e.evs.last().unwrap();
                        out.push((true, clients[c].svc, Msg::PutKey { client: c, epoch, ev }));
                        // and ask again what was refused
                        for (q, p) in pend.iter().filter(|(_, p)| p.client == c && p.epoch == epoch && !p.done) {
                            out.push((true, clients[c].svc, Msg::Query { client: c, qid: *q, epoch, cts: p.cts.clone() }));
                        }
                    }
                }
                Msg::Answer { qid, version, cts, .. } => {
                    let Some(p) = pend.get_mut(&qid) else { continue };
                    p.answers += 1;
                    let own = clients[c].epochs[p.epoch as usize].own.clone();
                    let want = svcs[clients[c].svc].dbs[version as usize][p.idx].clone();
                    let what = format!("client {c}, query {qid} (record {}, database {version}, answer {})", p.idx, p.answers);
                    let w2 = what.clone();
                    client_job(plan, cx, &mut sched, &mut done, &mut atts, 3_000_000 + qid, "decryption", Arc::new(move || judge_answer(&own, &cts, &want, &w2)))??;
                    cx.checks += 1;
                    cx.count("answers_checked", 1);
                    if p.answers > 1 {
                        cx.count("probe_second_answer_checked", 1);
                    }
                    p.done = true;
                    cx.ev(format!("{now} us: {what} is right"));
                }
                _ => unreachable!(),
            },
            Ev::Crash(s, down) => {
                if svcs[s].up {
                    svcs[s].up = false;
                    svcs[s].server = None;
                    svcs[s].keys.clear();
                    if let Some(x) = &mut svcs[s].spare {
                        x.clear();
                    }
                    boot[s] += 1;
                    cx.fired("server_crash", 1);
                    for j in serving.iter().filter(|x| x.1.svc == s).map(|x| *x.0).collect::<Vec<_>>() {
                        // requests in progress die where they are
                        if !sched.cancel(j) {
                            sched.stall(j);
                        }
                        cx.fired("request_abandoned_by_crash", 1);
                    }
                    cx.ev(format!("{now} us: service {s} crashes"));
                    push(&mut events, now + down, Ev::Restart(s));
                }
            }
            Ev::Restart(s) => {
                let svc = &mut svcs[s];
                svc.up = true;
                svc.server = Some(Arc::new(build_server(&svc.ten, &svc.sh, &svc.dbs[svc.version as usize])));
                cx.ev(format!("{now} us: service {s} is back"));
            }
        }
        for (to_server, i, m) in out {
            msgno += 1;
            let client = match &m {
                Msg::PutKey { client, .. } | Msg::KeyAck { client, .. } | Msg::Query { client, .. } | Msg::NeedKey { client, .. } | Msg::Answer { client, .. } => *client,
            };
            let faulty = now < horizon;
            let has = |k: &str| plan.faults.iter().find(|f| f.kind == k && f.args[0] == msgno - 1).filter(|_| faulty);
            cx.count("messages", 1);
            if plan.faults.iter().any(|f| f.kind == "partition" && f.args[0] as usize == client && now >= f.args[1] && now < f.args[2].min(horizon)) {
                cx.fired("partition_dropped_message", 1);
                continue;
            }
            if has("drop").is_some() {
                cx.fired("message_dropped", 1);
                cx.ev(format!("{now} us: {} is lost", m.name()));
                continue;
            }
            let mut lat = 1_000 + net.below(60_000);
            if let Some(f) = has("delay") {
                cx.fired("message_delayed", 1);
                lat += f.args[1];
            }
            let mut times = vec![lat];
            if let Some(f) = has("dup") {
                cx.fired("message_duplicated", 1);
                times.push(lat + f.args[1]);
            }
            for l in times {
                let e = if to_server { Ev::ToServer(i, m.clone()) } else { Ev::ToClient(i, m.clone()) };
                push(&mut events, now + l, e);
            }
        }
    }
    if let Some((q, p)) = pend.iter().find(|(_, p)| !p.done) {
        return viol("no-progress", format!("query {q} of client {} was never answered", p.client));
    }
    // threads left behind by crashes run on into the void
    sched.drain();
    let mut spins = 0;
    while sched.pending() && spins < 100_000 {
        spins += 1;
        match sched.step() {
            Step::Deadlock => return viol("deadlock", "abandoned requests wait for a lock".into()),
            Step::Done(_, any) => {
                if let Ok(b) = any.downcast::<(Outcome<Vec<BfvCipherText>>, Stream)>() {
                    must(b.0, "an abandoned request")?;
                }
            }
            _ => {}
        }
    }
    cx.take_sched(&mut sched);
    cx.sim_us = now;
    verify_alone(plan, cx, &seen, &overlapped, &atts, &pend)
}

/// (operation, db version, evaluation key) -> digest of the answer
type Seen = BTreeMap<(u64, u64, (usize, u64, u64)), u64>;

/// Recomputes answers in pristine processes that handle one request each.
fn verify_alone(
    plan: &Plan,
    cx: &mut Cx,
    seen: &Seen,
    overlapped: &BTreeSet<(u64, u64)>,
    atts: &BTreeMap<u64, u64>,
    pend: &BTreeMap<u64, Pending>,
) -> Res1<()> {
    let max = plan.knob_or("verify", 0) as usize;
    if max == 0 {
        return Ok(());
    }
    // requests that overlapped others first, the last ones before the first
    let over: BTreeSet<u64> = overlapped.iter().filter_map(|(q, _)| pend.get(q).map(|p| p.op)).collect();
    // and requests processed under several keys
    let several = |op: u64, version: u64| seen.keys().filter(|k| (k.0, k.1) == (op, version)).count() > 1;
    let mut todo: Vec<(&(u64, u64, (usize, u64, u64)), &u64)> = seen.iter().rev().collect();
    todo.sort_by_key(|x| (!several(x.0 .0, x.0 .1), !over.contains(&x.0 .0)));
    for ((op, version, key), d) in todo.into_iter().take(max) {
        let Some(p) = pend.values().find(|p| p.op == *op) else { continue };
        let mut solo = plan.clone();
        solo.set("solo", *op);
        solo.set("solo.epoch", p.epoch);
        solo.set("solo.version", *version);
        solo.set("solo.kc", key.0 as u64);
        solo.set("solo.ke", key.1);
        solo.set("solo.kv", key.2);
        for (k, v) in atts {
            solo.set(&format!("att.{k}"), *v);
        }
        let r = crate::driver::child(&solo, false).unwrap_or_else(|e| panic!("harness: {e}"));
        if let Some(v) = r.violation {
            return viol(&v.0, format!("the request alone: {}", v.1));
        }
        let want = r.digests.iter().find(|x| x.0 == *op).map(|x| x.1);
        cx.checks += 1;
        cx.count("answers_compared_with_pristine_process", 1);
        if want != Some(*d) {
            return viol("answer-differs", format!("the answer to operation {op} of client {} (database {version}) differs from what a server that handles only this request returns", p.client));
        }
    }
    Ok(())
}

#[allow(dead_code)]
fn _types(_: SecretKey) {}
