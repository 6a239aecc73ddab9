//! Virtual clock: this binary defines `clock_gettime`, so `Instant::now()` in the code under test reads it.
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::SeqCst};

static VIRT: AtomicBool = AtomicBool::new(false);
static NOW: AtomicI64 = AtomicI64::new(0); // nanoseconds
static READS: AtomicI64 = AtomicI64::new(0);
static STEP: AtomicI64 = AtomicI64::new(0); // nanoseconds that pass with every reading

#[repr(C)]
pub struct Ts { sec: i64, nsec: i64 }
extern "C" { fn syscall(n: i64, ...) -> i64; }

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut Ts) -> i32 {
    if VIRT.load(SeqCst) {
        READS.fetch_add(1, SeqCst);
        let n = NOW.fetch_add(STEP.load(SeqCst), SeqCst);
        (*ts).sec = n.div_euclid(1_000_000_000);
        (*ts).nsec = n.rem_euclid(1_000_000_000);
        0
    } else {
        syscall(228, clk as i64, ts) as i32
    }
}

/// Switch to virtual time, starting 10^9 seconds after the epoch of the clock.
pub fn start() { GEN.fetch_add(1, SeqCst); gate(false); let t = real_ms(); while PARKED.load(SeqCst) > 0 && real_ms() - t < 1000 { raw_yield() } STEP.store(0, SeqCst); NOW.store(1_000_000_000_000_000_000, SeqCst); VIRT.store(true, SeqCst); }
pub fn real() { VIRT.store(false, SeqCst); }
/// Advance virtual time.
pub fn adv(ns: u64) { NOW.fetch_add(ns as i64, SeqCst); }
pub fn adv_ms(ms: u64) { adv(ms * 1_000_000) }
pub fn now_ns() -> i64 { NOW.load(SeqCst) }
/// Every reading of the clock takes this long.
pub fn step(ns: u64) { STEP.store(ns as i64, SeqCst) }

// ---- the gate: threads that sleep are parked and stepped one sleep at a time ----
static GATE: AtomicBool = AtomicBool::new(false);
static GEN: AtomicI64 = AtomicI64::new(0);
static PARKED: AtomicI64 = AtomicI64::new(0); // threads parked now
static TICKETS: AtomicI64 = AtomicI64::new(0);
static SLEPT: AtomicI64 = AtomicI64::new(0); // number of sleeps begun

fn raw_yield() { unsafe { syscall(24); } }
fn raw_sleep(ns: i64) { let t = Ts { sec: ns / 1_000_000_000, nsec: ns % 1_000_000_000 }; unsafe { syscall(35, &t as *const Ts, 0usize); } }
pub fn real_ms() -> i64 { let mut t = Ts { sec: 0, nsec: 0 }; unsafe { syscall(228, 1i64, &mut t as *mut Ts); } t.sec * 1000 + t.nsec / 1_000_000 }

fn asleep(ns: i64) {
    let g = GEN.load(SeqCst);
    SLEPT.fetch_add(1, SeqCst);
    if !GATE.load(SeqCst) { NOW.fetch_add(ns, SeqCst); raw_sleep(20_000); return; }
    PARKED.fetch_add(1, SeqCst);
    let mut n = 0;
    loop {
        if GEN.load(SeqCst) != g || !GATE.load(SeqCst) { break; }
        if TICKETS.load(SeqCst) > 0 && TICKETS.fetch_sub(1, SeqCst) > 0 { break; }
        n += 1;
        if n < 2000 { raw_yield() } else { raw_sleep(50_000) }
    }
    PARKED.fetch_sub(1, SeqCst);
    NOW.fetch_add(ns, SeqCst);
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const Ts, _rem: *mut Ts) -> i32 {
    if VIRT.load(SeqCst) { asleep((*req).sec * 1_000_000_000 + (*req).nsec) } else { raw_sleep((*req).sec * 1_000_000_000 + (*req).nsec) }
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(_clk: i32, flags: i32, req: *const Ts, _rem: *mut Ts) -> i32 {
    let mut ns = (*req).sec * 1_000_000_000 + (*req).nsec;
    if VIRT.load(SeqCst) {
        if flags & 1 != 0 { ns = (ns - NOW.load(SeqCst)).max(0) }
        asleep(ns)
    } else {
        if flags & 1 != 0 { ns = (ns - real_ms() * 1_000_000).max(0) }
        raw_sleep(ns)
    }
    0
}
/// In gate mode every sleeping thread waits to be stepped.
pub fn gate(on: bool) { TICKETS.store(0, SeqCst); GATE.store(on, SeqCst); let t = real_ms(); while !on && PARKED.load(SeqCst) > 0 && real_ms() - t < 1000 { raw_yield() } }
/// Wait until a thread is parked, at most so long.
pub fn parked(ms: i64) -> bool {
    let t = real_ms();
    let mut n = 0;
    while PARKED.load(SeqCst) == 0 { if real_ms() - t > ms { return false; } n += 1; if n > 200 { raw_yield() } }
    true
}
/// Let the parked thread run until it sleeps again (or for at most two seconds).
pub fn step_thread() {
    if !parked(2000) { return; }
    let s = SLEPT.load(SeqCst);
    TICKETS.store(1, SeqCst);
    let t = real_ms();
    let mut n = 0;
    while SLEPT.load(SeqCst) == s || PARKED.load(SeqCst) == 0 {
        if real_ms() - t > 2000 {
            // either it has ended, or it runs without ever sleeping: then this case decides nothing
            let r = READS.load(SeqCst);
            raw_sleep(100_000_000);
            if READS.load(SeqCst) != r { gate(false); std::panic::panic_any(Inconclusive); }
            return;
        }
        n += 1;
        if n > 200 { raw_yield() }
    }
}
pub struct Inconclusive;
