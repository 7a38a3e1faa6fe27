pub mod gen; pub mod raw; pub mod types; pub mod world;
use raw::Table;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::{atomic::{AtomicBool, AtomicU64, Ordering}, Mutex};
use std::time::{Duration, Instant};
use world::*;

/// runs a scenario; the violations of `prop` after each of its steps
pub fn play(t: Table, s: &Scenario, prop: &str) -> (Vec<String>, World) {
    let mut w = World::new(t, s);
    for op in &s.ops { if w.broken || hit(&w, prop) { break } w.step(op); }
    (bad(&w, prop), w)
}
fn hit(w: &World, prop: &str) -> bool { w.bad.iter().any(|b| prop == "*" || b.0 == prop) }
fn bad(w: &World, prop: &str) -> Vec<String> { w.bad.iter().filter(|b| prop == "*" || b.0 == prop).map(|b| format!("{}: {}", b.0, b.1)).collect() }
fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|p| p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into()))
}
pub struct Found { pub scenario: Value, pub why: Vec<String> }
#[derive(Default)]
pub struct Stat { pub histories: u64, pub calls: u64, pub seen: BTreeMap<String, u64>, pub errors: Vec<String> }

fn shrink(t: Table, mut s: Scenario, prop: &str, until: Instant) -> Scenario {
    let fails = |c: &Scenario| matches!(guarded(|| play(t, c, prop).0), Ok(v) if !v.is_empty());
    let mut size = (s.ops.len() / 2).max(1);
    loop {
        let mut i = 0; let mut any = false;
        while i < s.ops.len() {
            if Instant::now() > until { return s }
            let mut c = s.clone();
            c.ops.drain(i..(i + size).min(c.ops.len()));
            if fails(&c) { s = c; any = true } else { i += size }
        }
        if size == 1 { if !any { break } } else { size = (size / 2).max(1) }
    }
    let mut tries: Vec<Scenario> = vec![];
    if s.balances.is_some() { let mut c = s.clone(); c.balances = None; tries.push(c) }
    if s.index.is_some() { let mut c = s.clone(); c.index = None; tries.push(c) }
    for c in tries { if Instant::now() < until && fails(&c) { s = c } }
    s
}
pub struct Args { pub prop: String, pub seconds: u64, pub seed: u64, pub out: String, pub replay: Option<String> }
pub fn args() -> Args {
    let v: Vec<String> = std::env::args().collect();
    let get = |k: &str| v.iter().position(|x| x == k).map(|i| v[i + 1].clone());
    Args { prop: get("--property").unwrap_or("*".into()), seconds: get("--seconds").map(|x| x.parse().unwrap()).unwrap_or(5), seed: get("--seed").map(|x| x.parse().unwrap()).unwrap_or(1), out: get("--out").unwrap_or_default(), replay: get("--replay") }
}
/// (ok, explanation) of a scenario stored in a replay file
pub fn main(t: Table) {
    std::panic::set_hook(Box::new(|_| {}));
    let a = args();
    if let Some(f) = &a.replay {
        let v: Value = serde_json::from_str(&std::fs::read_to_string(f).unwrap()).unwrap();
        let s: Scenario = serde_json::from_value(v["scenario"].clone()).unwrap();
        let prop = v["property"].as_str().unwrap_or(&a.prop).to_string();
        let (b, w) = play(t, &s, &prop);
        for d in &w.done { println!("  {d}"); }
        if b.is_empty() { println!("no violation of {prop} in this history"); std::process::exit(0) }
        for x in b { println!("{x}"); }
        std::process::exit(1)
    }
    let until = Instant::now() + Duration::from_secs(a.seconds);
    let stop = AtomicBool::new(false); let next = AtomicU64::new(0);
    let found: Mutex<Option<(u64, Scenario)>> = Mutex::new(None);
    let stat = Mutex::new(Stat::default());
    std::thread::scope(|sc| {
        for _ in 0..8 {
            sc.spawn(|| while !stop.load(Ordering::Relaxed) && Instant::now() < until {
                let id = next.fetch_add(1, Ordering::Relaxed);
                let mut cur: Option<Scenario> = None;
                let r = guarded(|| {
                    let mut g = gen::Gen::new(&a.prop, a.seed.wrapping_mul(0x1000_0000_01b3).wrapping_add(id.wrapping_mul(0x9e37_79b9)));
                    let mut s = g.init();
                    let len = 6 + g.r.n(45);
                    cur = Some(s.clone());
                    let mut w = World::new(t, &s);
                    for _ in 0..len {
                        if w.broken || hit(&w, &a.prop) || Instant::now() > until + Duration::from_secs(3) { break }
                        let op = g.op(&w);
                        s.ops.push(op.clone());
                        cur = Some(s.clone());
                        w.step(&op);
                    }
                    (s, w)
                });
                let mut st = stat.lock().unwrap();
                match r {
                    Ok((s, w)) => {
                        st.histories += 1; st.calls += w.m.calls;
                        for d in &w.done { let k = if d.starts_with("time ") { "time".to_string() } else { d.clone() }; *st.seen.entry(k).or_insert(0) += 1; }
                        if hit(&w, &a.prop) { stop.store(true, Ordering::Relaxed); let mut f = found.lock().unwrap(); if f.as_ref().map(|x| x.0 > id).unwrap_or(true) { *f = Some((id, s)) } }
                    }
                    Err(e) => if st.errors.len() < 5 { st.errors.push(format!("{e} in {}", serde_json::to_string(&cur).unwrap())) },
                }
            });
        }
    });
    let st = stat.into_inner().unwrap();
    let mut res = json!({"status": "ok", "histories": st.histories, "calls": st.calls, "samples": st.seen, "errors": st.errors});
    if let Some((_, s)) = found.into_inner().unwrap() {
        let s = shrink(t, s, &a.prop, Instant::now() + Duration::from_secs(20));
        let (b, w) = guarded(|| play(t, &s, &a.prop)).map_err(|e| panic!("{e}")).unwrap();
        res["status"] = "violation".into();
        res["reason"] = b.first().cloned().unwrap_or_default().into();
        res["explanation"] = json!({"violations": b, "history": w.done});
        res["scenario"] = serde_json::to_value(&s).unwrap();
    } else if st.histories == 0 { res["status"] = "error".into(); res["reason"] = "no history completed".into(); }
    std::fs::write(&a.out, serde_json::to_string_pretty(&res).unwrap()).unwrap();
}
