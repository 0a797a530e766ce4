//! Executable form of the contracts: runs each property on generated inputs against the real crate.
//! usage: harness run <ID> <seed> <seconds> <max cases> <big> <out dir>
//!        harness case <ID> <seed> <index> <big>
mod gen;
mod props;
use gen::Gen;
use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn pnum(id: &str) -> u64 { id[1..].parse().unwrap() }

fn one(id: &str, seed: u64, idx: u64, big: usize) -> (Gen, Result<(), String>) {
    let mut g = Gen::new(seed, pnum(id), idx, big);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| props::run(id, &mut g)));
    let r = match r {
        Ok(r) => r,
        Err(e) => Err(format!("panicked: {}", e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())),
    };
    (g, r)
}
fn esc(s: &str) -> String { let mut o = String::new(); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push(' '), c if (c as u32) < 32 => o.push(' '), c => o.push(c) } } o }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    if a[1] == "case" {

        let (g, r) = one(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap());
        for l in &g.log { println!("{l}"); }
        match r { Ok(()) => println!("case holds"), Err(e) => { println!("FAILS: {e}"); std::process::exit(1) } }
        return;
    }
    let id: &'static str = Box::leak(a[2].clone().into_boxed_str());
    let seed: u64 = a[3].parse().unwrap();
    let secs: f64 = a[4].parse().unwrap();
    let maxc: u64 = a[5].parse().unwrap();
    let big: usize = a[6].parse().unwrap();
    let out = a[7].clone();
    let start = Instant::now();
    let next = Arc::new(AtomicU64::new(0));
    let done = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let fail: Arc<Mutex<Option<(u64, String, Vec<String>)>>> = Arc::new(Mutex::new(None));
    let seen: Arc<Mutex<(HashSet<u64>, u64)>> = Arc::new(Mutex::new((HashSet::new(), 0)));
    let samples: Arc<Mutex<Vec<String>>> = Arc::new(Mutex::new(vec![]));
    let nt = 8usize;
    let busy: Arc<Vec<Mutex<Option<(u64, Instant)>>>> = Arc::new((0..nt).map(|_| Mutex::new(None)).collect());
    let mut hs = vec![];
    for t in 0..nt {
        let (next, done, stop, fail, seen, busy, samples) = (next.clone(), done.clone(), stop.clone(), fail.clone(), seen.clone(), busy.clone(), samples.clone());
        hs.push(std::thread::spawn(move || loop {
            let i = next.fetch_add(1, Ordering::SeqCst);
            if i >= maxc || start.elapsed().as_secs_f64() > secs || stop.load(Ordering::SeqCst) { break; }
            *busy[t].lock().unwrap() = Some((i, Instant::now()));
            let (g, r) = one(id, seed, i, big);
            *busy[t].lock().unwrap() = None;
            done.fetch_add(1, Ordering::SeqCst);
            { let mut s = seen.lock().unwrap(); if s.0.insert(g.hash) && g.nontrivial { s.1 += 1; } }
            if i < 3 { samples.lock().unwrap().push(g.log.join("; ").chars().take(600).collect()); }
            if let Err(e) = r {
                let mut f = fail.lock().unwrap();
                if f.as_ref().map(|x| i < x.0).unwrap_or(true) { *f = Some((i, e, g.log)); }
                stop.store(true, Ordering::SeqCst);
            }
        }));
    }
    let mut hung: Option<u64> = None;
    loop {
        std::thread::sleep(Duration::from_millis(20));
        if hs.iter().all(|h| h.is_finished()) { break; }
        for b in busy.iter() { if let Some((i, t)) = *b.lock().unwrap() { if t.elapsed().as_secs_f64() > 25. { hung = Some(i); } } }
        if hung.is_some() { break; }
    }
    let f = fail.lock().unwrap().take().or_else(|| hung.map(|i| {
        (i, "did not return within 25 s".into(), vec!["(input: see the case command)".to_string()])
    }));
    let worst = { let w = props::WORST.lock().unwrap(); w.iter().map(|(k, v)| format!("\"{}\": {}", esc(k), if v.is_finite() { format!("{v:.4}") } else { "1e308".into() })).collect::<Vec<_>>().join(", ") };
    let s = seen.lock().unwrap();
    let fj = match &f { None => "null".to_string(), Some((i, e, log)) => format!("{{\"index\": {i}, \"message\": \"{}\", \"input\": [{}]}}", esc(e), log.iter().map(|l| format!("\"{}\"", esc(l))).collect::<Vec<_>>().join(", ")) };
    let sm = samples.lock().unwrap().iter().map(|l| format!("\"{}\"", esc(l))).collect::<Vec<_>>().join(", ");
    let js = format!("{{\"id\": \"{id}\", \"seed\": {seed}, \"big\": {big}, \"evaluations\": {}, \"distinct_nontrivial\": {}, \"wall_s\": {:.2}, \"worst_units\": {{{worst}}}, \"samples\": [{sm}], \"failure\": {fj}}}", done.load(Ordering::SeqCst), s.1, start.elapsed().as_secs_f64());
    std::fs::write(&out, &js).unwrap();
    std::process::exit(if f.is_some() { 1 } else { 0 });
}
