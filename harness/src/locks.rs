//! What the threads do with the library's locks (only when built with `--cfg visdom_verif`).
//! A run is what a thread does from holding nothing to holding nothing: `+` takes a lock, `-` gives it back,
//! `(` and `)` are the begin and end of what is done once, `=` finds it done. Each run is kept once,
//! together with what the thread knew to be done before it.
//! JITTER: wait a moment, by chance, before a lock is taken. FORCE=locks: wait longer when one of them is held
//! and another one is wanted, so that a circle the specification predicts comes about.
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use crate::json::J;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Barrier, Mutex, OnceLock};
use std::time::{Duration, Instant};

type Run = (Vec<i64>, Vec<(char, i64)>);
static SEEN: Mutex<BTreeMap<Run, String>> = Mutex::new(BTreeMap::new());
static FORCE: OnceLock<BTreeSet<i64>> = OnceLock::new();
static JITTER: OnceLock<u64> = OnceLock::new();
#[derive(Default)]
struct Mine { held: Vec<i64>, need: Vec<i64>, run: Vec<(char, i64)>, done: BTreeSet<i64>, told: BTreeSet<Run>, dice: u64, by: String }
thread_local! { static MINE: RefCell<Mine> = RefCell::new(Mine::default()); }

static OUT: OnceLock<String> = OnceLock::new();

pub fn begin(out: &str) {
    let _ = OUT.set(out.to_string());
    let list = std::env::var("FORCE").unwrap_or_default();
    let _ = FORCE.set(list.split(',').filter_map(|s| s.parse().ok()).collect());
    let _ = JITTER.set(std::env::var("JITTER").ok().and_then(|s| s.parse().ok()).unwrap_or(0));
    visdom::verif::report_to(report);
}
fn pause(m: &mut Mine, x: i64) -> Duration {
    let force = FORCE.get().unwrap();
    if force.contains(&x) && m.held.iter().any(|h| *h != x && force.contains(h)) { return Duration::from_millis(60); }
    let j = *JITTER.get().unwrap();
    if j == 0 { return Duration::ZERO; }
    if m.dice == 0 { m.dice = j.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ (m as *mut Mine as u64) | 1; }
    m.dice ^= m.dice << 13; m.dice ^= m.dice >> 7; m.dice ^= m.dice << 17;
    if m.dice % 5 == 0 { Duration::from_micros(m.dice / 5 % 400) } else { Duration::ZERO }
}
/// the operation the thread does now
pub fn now(event: &str) { MINE.with(|m| m.borrow_mut().by = event.to_string()); }
/// the name of a lock: where it is, counted from somewhere in the library
fn report(what: &'static str, at: usize) {
    let x = at as i64 - visdom::verif::report_to as *const () as usize as i64;
    let wait = MINE.with(|m| {
        let mut m = m.borrow_mut();
        let m = &mut *m;
        if m.held.is_empty() && m.run.is_empty() { m.need = m.done.iter().copied().collect(); }
        match what {
            "lock" => { m.held.push(x); m.run.push(('+', x)); }
            "unlock" => { m.held.retain(|h| *h != x); m.run.push(('-', x)); }
            "begin" => { m.held.push(x); m.run.push(('(', x)); }
            "end" => { m.held.retain(|h| *h != x); m.run.push((')', x)); m.done.insert(x); }
            "pass" => { if m.done.insert(x) && !m.held.is_empty() { m.run.push(('=', x)); } }
            _ => return pause(m, x),
        }
        // taking and giving back again what was just taken and given back says nothing new
        let k = m.run.len();
        if k >= 4 && m.run[k - 1].0 == '-' && m.run[k - 4..k - 2] == m.run[k - 2..] { m.run.truncate(k - 2); }
        if m.held.is_empty() {
            let r = (std::mem::take(&mut m.need), std::mem::take(&mut m.run));
            if !r.1.is_empty() && m.told.insert(r.clone()) { SEEN.lock().unwrap().entry(r).or_insert_with(|| m.by.clone()); }
        }
        Duration::ZERO
    });
    if !wait.is_zero() { std::thread::sleep(wait); }
}
pub fn write() {
    let mut t = String::new();
    for ((need, run), by) in SEEN.lock().unwrap().iter() {
        let steps: Vec<String> = run.iter().map(|(c, n)| format!("{{\"e\":\"{}\",\"x\":\"{}\"}}", c, n)).collect();
        let need: Vec<String> = need.iter().map(|n| n.to_string()).collect();
        t.push_str(&format!("{{\"need\":{:?},\"run\":[{}],\"by\":{}}}\n", need, steps.join(","), if by.is_empty() { "{}" } else { by }));
    }
    std::fs::write(OUT.get().unwrap(), t).unwrap();
}

/// the operations in which the locks of a circle were taken, done by threads at once in a fresh process
pub fn force(path: &str, out: &str) {
    let events: Vec<(String, J)> = std::fs::read_to_string(path).unwrap().lines().map(|l| (l.to_string(), J::parse(l))).collect();
    let n = 3 * events.len();
    let bar = Arc::new(Barrier::new(n));
    let left = Arc::new(AtomicUsize::new(n));
    for i in 0..n {
        let (bar, left, e) = (bar.clone(), left.clone(), events[i % events.len()].1.clone());
        std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            bar.wait();
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| for _ in 0..4 { drive(&e) }));
            left.fetch_sub(1, Ordering::SeqCst);
        }).unwrap();
    }
    let t = Instant::now();
    while left.load(Ordering::SeqCst) > 0 && t.elapsed() < Duration::from_secs(20) { std::thread::sleep(Duration::from_millis(20)); }
    let mut text = String::new();
    if left.load(Ordering::SeqCst) > 0 {
        let e = &events[0].0;
        text = format!("{},\"err\":0,\"pan\":\"no answer\"}}\n", &e[..e.len() - 1]);
    }
    std::fs::write(out, text).unwrap();
    std::process::exit(0);
}
fn drive(e: &J) {
    let text = |k: &str| e.get(k).map(|j| j.str().to_string());
    if e.get("op").map_or(false, |o| o.str() == "load") { let _ = visdom::Vis::load(text("str").unwrap_or_default()); return; }
    let doc = match visdom::Vis::load("<div id='a' class='b'><p>c</p><ul><li>d</li><li class='b'><a href='#'>e</a></li></ul><p>f</p></div>") { Ok(d) => d, _ => return };
    let all = doc.find("*");
    for q in ["str", "fstr"].iter().filter_map(|k| text(k)) {
        match e.get("op").map_or("", |o| o.str()) {
            "next_until" | "prev_until" | "parents_until" => { all.next_until(&q, "", false); all.next_until("p", &q, false); }
            "next" | "next_all" => { all.next_all(&q); all.next(&q); }
            "prev" | "prev_all" => { all.prev_all(&q); all.prev(&q); }
            "parent" | "parents" => { all.parents(&q); all.parent(&q); }
            "siblings" => { all.siblings(&q); }
            "children" => { all.children(&q); }
            "filter" => { all.filter(&q); }
            "not" => { all.not(&q); }
            "is" => { all.is(&q); }
            "is_all" => { all.is_all(&q); }
            "has" => { all.has(&q); }
            "closest" => { all.closest(&q); }
            _ => {}
        }
        doc.find(&q); all.filter(&q); all.closest(&q); all.children(&q); all.next_until("p", &q, false);
    }
}
