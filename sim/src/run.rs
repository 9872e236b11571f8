//! Runs one plan in this process and prints what happened.

use crate::machine::{self, Flags};
use crate::plan::Plan;
use crate::rt;
use crate::world::*;
use std::io::Write;

pub fn scenario(p: &Plan, cx: &mut Cx) -> Res1<()> {
    let f = |dec, noise, measure, raw, digests| Flags { dec, noise, measure, raw, digests };
    match p.prop.as_str() {
        "C03" => machine::run(p, cx, f(true, true, false, true, false)),
        "C04" | "C05" | "C06" | "C07" => machine::run(p, cx, f(true, false, false, true, false)),
        "C08" => machine::run(p, cx, f(false, true, true, true, false)),
        "C14" => machine::run(p, cx, f(true, true, false, true, false)),
        "C16" => machine::run(p, cx, f(true, true, false, true, false)),
        "C13" => crate::conc::run(p, cx),
        "C01" | "C02" => crate::pir::run(p, cx),
        "C09" => crate::fresh::run_fresh(p, cx),
        "C10" => crate::fresh::run_pairs(p, cx),
        "C11" => crate::pvw::run(p, cx),
        "C12" => crate::sampler::run(p, cx),
        "C15" => crate::refuse::run(p, cx),
        "C17" => crate::params::run(p, cx),
        x => panic!("unknown property {x}"),
    }
}

pub fn one(p: &Plan, verbose: bool) -> i32 {
    let mut cx = Cx::default();
    rt::OS_KEY.store(p.seed, std::sync::atomic::Ordering::SeqCst);
    rt::CLOCK_JUMPS.store(p.knob_or("clock", 0) == 1, std::sync::atomic::Ordering::SeqCst);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| scenario(p, &mut cx)));
    let v = match r {
        Ok(Ok(())) => None,
        Ok(Err(v)) => Some(v),
        Err(_) => Some(Violation { class: "panic".into(), text: format!("panic outside a caller's operation: {}", rt::last_panic()) }),
    };
    let mut o = String::new();
    if verbose {
        for l in &cx.log {
            o += &format!("L {l}\n");
        }
    }
    for (k, n) in &cx.stats {
        o += &format!("S {k} {n}\n");
    }
    for (k, n) in &cx.faults {
        o += &format!("F {k} {n}\n");
    }
    for (k, d) in &cx.digests {
        o += &format!("D {k} {d}\n");
    }
    cx.sim_us = cx.sim_us.max(rt::clock_us());
    let (y, al, dr, lw) = rt::counters();
    o += &format!("S yield_points {y}\nS allocations {al}\nS entropy_draws {dr}\nS lock_waits {lw}\n");
    o += &format!("C {}\nU {}\nT {}\nH {}\n", cx.checks, cx.sim_us, cx.sched_trace, cx.log_hash);
    if let Some(v) = v {
        o += &format!("V {}\t{}\n", v.class, v.text.replace('\n', " "));
    }
    o += "E\n";
    let mut out = std::io::stdout();
    out.write_all(o.as_bytes()).ok();
    out.flush().ok();
    0
}
