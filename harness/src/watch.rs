//! Ends a driver that makes no progress any more, whatever it waits for
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

static STEPS: AtomicU64 = AtomicU64::new(0);

/// something has been finished
pub fn step() {
    STEPS.fetch_add(1, Ordering::Relaxed);
}
/// exit with code 9 if nothing is finished for so long
pub fn start(seconds: u64) {
    std::thread::spawn(move || {
        let (mut seen, mut at) = (u64::MAX, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(200));
            let now = STEPS.load(Ordering::Relaxed);
            if now != seen {
                seen = now;
                at = Instant::now();
            } else if at.elapsed() > Duration::from_secs(seconds) {
                println!("no progress for {} s", seconds);
                std::process::exit(9);
            }
        }
    });
}
