//! Makes unlikely schedules likely: delays at the hook points, after futex waits and after
//! waking others.
use std::collections::HashMap;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

use rand::rngs::StdRng;
use rand::Rng;

static FUTEX: AtomicU32 = AtomicU32::new(0);
static FUTEX_US: AtomicU32 = AtomicU32::new(300);
static WAKE: AtomicU32 = AtomicU32::new(0);
type Hook = Arc<dyn Fn(&'static str) + Send + Sync>;
static HOOK: Mutex<Option<Hook>> = Mutex::new(None);
static CTR: AtomicU64 = AtomicU64::new(1);
pub static HITS: Mutex<Option<HashMap<&'static str, u64>>> = Mutex::new(None);

fn rnd() -> u64 {
    let mut z = CTR.fetch_add(0x9E37_79B9_7F4A_7C15, Ordering::Relaxed);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

fn nap(us: u64) {
    let ts = libc::timespec { tv_sec: (us / 1_000_000) as i64, tv_nsec: ((us % 1_000_000) * 1000) as i64 };
    unsafe { libc::nanosleep(&ts, std::ptr::null_mut()) };
}

/// Replaces libc's function; std and parking_lot wait on futexes through it.
#[no_mangle]
pub unsafe extern "C" fn syscall(num: libc::c_long, a1: usize, a2: usize, a3: usize, a4: usize, a5: usize, a6: usize) -> libc::c_long {
    let r: libc::c_long;
    std::arch::asm!("syscall", inlateout("rax") num => r, in("rdi") a1, in("rsi") a2, in("rdx") a3, in("r10") a4, in("r8") a5, in("r9") a6,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    let p = FUTEX.load(Ordering::Relaxed);
    if p > 0 && num == libc::SYS_futex && matches!(a2 & 0x7f, 0 | 9) && rnd() % 1000 < u64::from(p) {
        nap(rnd() % u64::from(FUTEX_US.load(Ordering::Relaxed).max(1)));
    }
    let w = WAKE.load(Ordering::Relaxed);
    if w > 0 && num == libc::SYS_futex && matches!(a2 & 0x7f, 1 | 10) && r > 0 && rnd() % 1000 < u64::from(w) {
        nap(rnd() % 3000);
    }
    if r < 0 && r > -4096 {
        *libc::__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}

/// Operations that have returned.
pub static DONE: AtomicU64 = AtomicU64::new(0);

/// Delays for one scenario.
pub fn configure(rng: &mut StdRng, points: &[&'static str]) {
    CTR.store(rng.gen(), Ordering::Relaxed);
    FUTEX.store(*[0, 30, 150, 400].get(rng.gen_range(0..4)).unwrap(), Ordering::Relaxed);
    FUTEX_US.store(*[100, 1000, 4000].get(rng.gen_range(0..3)).unwrap(), Ordering::Relaxed);
    WAKE.store(*[0, 0, 20, 150].get(rng.gen_range(0..4)).unwrap(), Ordering::Relaxed);
    let mut plan: HashMap<&'static str, (u64, u64)> = HashMap::new();
    for p in points {
        let prob = *[0u64, 0, 200, 700].get(rng.gen_range(0..4)).unwrap();
        let us = *[200u64, 1500, 5000].get(rng.gen_range(0..3)).unwrap();
        plan.insert(*p, (prob, us));
    }
    // At one of the points a thread may wait until others have got something done, and for
    // a moment more, in which those others go on.
    let parked = (!points.is_empty() && rng.gen_bool(0.6)).then(|| points[rng.gen_range(0..points.len())]);
    let park = [300, 700, 1000][rng.gen_range(0..3)];
    let hook: Hook = Arc::new(move |name| {
        if parked == Some(name) && rnd() % 1000 < park {
            let goal = DONE.load(Ordering::SeqCst) + 1 + rnd() % 2;
            for _ in 0..120 {
                if DONE.load(Ordering::SeqCst) >= goal {
                    break;
                }
                nap(100);
            }
            nap(rnd() % 2500);
        }
        if let Some(h) = HITS.lock().unwrap().as_mut() {
            *h.entry(name).or_default() += 1;
        }
        if let Some((p, us)) = plan.get(name) {
            if *p > 0 && rnd() % 1000 < *p {
                std::thread::sleep(Duration::from_micros(rnd() % us));
            }
        }
    });
    *HOOK.lock().unwrap() = Some(hook.clone());
    bonsaidb_local::verif::set_hook(Some(hook));
}

/// What other crates' points call.
pub fn hit(name: &'static str) {
    let hook = HOOK.lock().unwrap().clone();
    if let Some(hook) = hook {
        hook(name);
    }
}

pub fn off() {
    FUTEX.store(0, Ordering::Relaxed);
    WAKE.store(0, Ordering::Relaxed);
    *HOOK.lock().unwrap() = None;
    bonsaidb_local::verif::set_hook(None);
}

pub const POINTS: &[&str] = &[
    "tx.locked", "tx.commit", "tx.committed", "mapper.txid", "mapper.invalidated", "mapper.committed", "scan.listed", "scan.committed",
    "kv.persist", "kv.persisted", "db.delete", "db.open", "client.sent",
];
