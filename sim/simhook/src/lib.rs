//! Joint between the substituted `rand` crate and the simulator.
use std::sync::atomic::{AtomicUsize, Ordering};

static HOOK: AtomicUsize = AtomicUsize::new(0);

/// Installs the function every `ThreadRng` draw goes to.
pub fn install(f: fn(&mut [u8])) {
    HOOK.store(f as usize, Ordering::SeqCst);
}

pub fn fill(dest: &mut [u8]) {
    let h = HOOK.load(Ordering::SeqCst);
    assert!(h != 0, "simulated entropy drawn outside the simulator");
    let f: fn(&mut [u8]) = unsafe { std::mem::transmute(h) };
    f(dest)
}
