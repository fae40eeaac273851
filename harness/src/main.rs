#![allow(unknown_lints, unexpected_cfgs)]
mod call;
mod docs;
mod ep;
mod extra;
mod json;
#[cfg(visdom_verif)]
mod locks;
mod profiles;
mod replay;
mod rng;
mod sel;
mod term;
mod world;
use ep::Shared;
use rng::Rng;
use std::sync::atomic::Ordering;
use std::sync::{Arc, Barrier};
use std::time::{Duration, Instant};

/// vharness PROFILE SEED SHARD OUT EVENTS: random episodes
/// vharness PROFILE SEED behaviours IN OUT: behaviours of the specification
/// vharness PROFILE SEED events IN OUT: recorded events once more
fn main() {
    let a: Vec<String> = std::env::args().collect();
    hook();
    #[cfg(visdom_verif)]
    locks::begin(&format!("{}.locks", a[4]));
    #[cfg(visdom_verif)]
    if a[3] == "force" { return locks::force(&a[4], &a[5]); }
    if a[3] == "behaviours" || a[3] == "events" { return given(a); }
    let (p, seed, shard, out, limit) = (a[1].clone(), a[2].parse::<u64>().unwrap(), a[3].parse::<u64>().unwrap(), a[4].clone(), a[5].parse::<usize>().unwrap());
    let salt = p.bytes().fold(17u64, |h, b| h.wrapping_mul(31).wrapping_add(b as u64));
    let sh = Shared::new(&out);
    watchdog(sh.clone(), sh.clone(), 30);
    if p == "C25" {
        threads(&p, seed, shard, salt, sh, limit);
        #[cfg(visdom_verif)]
        locks::write();
        return;
    }
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        let mut k = 0;
        loop {
            if sh.sink.lock().unwrap().events >= limit { break; }
            // an episode that cannot go on ends here; the operations it did are in the trace
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| profiles::episode(&p, Rng::new(seed * 1000 + shard, salt, k), sh.clone())));
            sh.end();
            k += 1;
            if k > 50 * limit as u64 { break; }
        }
    }).unwrap();
    h.join().unwrap();
}
/// an operation that gives no answer is an observation too
fn watchdog(sh: Arc<Shared>, to: Arc<Shared>, secs: u64) {
    std::thread::spawn(move || {
        let mut last = (0, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(200));
            let t = sh.tick.load(Ordering::SeqCst);
            if t != last.0 || sh.busy.load(Ordering::SeqCst) == 0 { last = (t, Instant::now()); continue; }
            if last.1.elapsed() > Duration::from_secs(secs) {
                let mut s = sh.pending.lock().unwrap().clone();
                s.pop();
                s.push_str(",\"err\":0,\"pan\":\"no answer\"}");
                to.line(&s);
                #[cfg(visdom_verif)]
                locks::write();
                std::process::exit(0);
            }
        }
    });
}
/// documents used by several threads at once, each its own; the first use of the library is concurrent too
fn threads(p: &str, seed: u64, shard: u64, salt: u64, sh: Arc<Shared>, limit: usize) {
    let n = 6;
    let hang = std::env::var("HANG").ok().and_then(|s| s.parse().ok()).unwrap_or(60);
    let bar = Arc::new(Barrier::new(n));
    let mut hs = vec![];
    let subs: Vec<Arc<Shared>> = (0..n).map(|_| { let s = Shared::new("/dev/null"); s.sink.lock().unwrap().text = Some(String::new()); watchdog(s.clone(), sh.clone(), hang); s }).collect();
    for i in 0..n {
        let (bar, sub, p) = (bar.clone(), subs[i].clone(), p.to_string());
        hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            bar.wait();
            let mut k = 0;
            loop {
                if sub.sink.lock().unwrap().events >= limit / n { break; }
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| profiles::episode(&p, Rng::new(seed * 1000 + shard, salt, k * 100 + i as u64), sub.clone())));
                sub.end();
                k += 1;
                if k > 50 * limit as u64 { break; }
            }
        }).unwrap());
    }
    for h in hs { let _ = h.join(); }
    for s in subs { let t = s.sink.lock().unwrap_or_else(|e| e.into_inner()).text.take().unwrap(); for l in t.lines() { sh.line(l); } }
}
fn hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let l = i.location().map_or(String::new(), |l| format!(" at {}:{}", l.file(), l.line()));
        ep::PANIC.with(|p| *p.borrow_mut() = format!("{}{}", m, l));
    }));
}
fn given(a: Vec<String>) {
    let text = std::fs::read_to_string(&a[4]).unwrap();
    let sh = Shared::new(&a[5]);
    watchdog(sh.clone(), sh.clone(), 30);
    let (p, seed, kind) = (a[1].clone(), a[2].parse::<u64>().unwrap(), a[3].clone());
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        if kind == "events" { return replay::again(&text, sh); }
        for (k, l) in text.lines().enumerate() { let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| replay::behaviour(&p, l, Rng::new(seed, 77, k as u64), sh.clone()))); }
    }).unwrap();
    h.join().unwrap();
}
