//! replay search PROP SEED ENUM RANDOM SECONDS | replay case PROP (e|r) ID | replay list
mod gen;
mod props;
use std::panic;
use std::sync::atomic::*;
use std::sync::Mutex;
use std::time::*;

pub type R = Result<(), String>;
/// what one case did: a description and whether it exercised anything, plus the verdict
pub struct Out { pub desc: String, pub nontrivial: bool, pub res: R }

fn run(prop: &str, id: u64, rng: bool) -> Out {
    gen::refuel(4_000_000);
    let r = panic::catch_unwind(panic::AssertUnwindSafe(|| props::case(prop, &mut gen::Ch::new(id, rng))));
    match r {
        Ok(o) => o,
        Err(e) => {
            let m = e.downcast_ref::<&str>().map(|s| s.to_string()).or(e.downcast_ref::<String>().cloned()).unwrap_or("?".into());
            if m == gen::OUT_OF_FUEL { return Out { desc: props::last_desc(), nontrivial: false, res: Ok(()) }; }
            Out { desc: props::last_desc(), nontrivial: true, res: Err(format!("panicked: {}", m)) }
        }
    }
}
fn json(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 || c as u32 > 126 => { for u in c.encode_utf16(&mut [0; 2]) { o.push_str(&format!("\\u{:04x}", u)); } } c => o.push(c) } } o.push('"'); o }

static DONE: AtomicBool = AtomicBool::new(false);
const NT: usize = 8;
static CUR: [AtomicU64; NT] = [const { AtomicU64::new(0) }; NT];
static MODE: [AtomicBool; NT] = [const { AtomicBool::new(false) }; NT];
static START: [AtomicU64; NT] = [const { AtomicU64::new(0) }; NT];

fn main() {
    let a: Vec<String> = std::env::args().collect();
    panic::set_hook(Box::new(|_| {}));
    if a[1] == "case" {
        let rng = a[3] == "r";
        let id: u64 = a[4].parse().unwrap();
        let t = std::thread::Builder::new().stack_size(64 << 20).spawn({ let p = a[2].clone(); move || run(&p, id, rng) }).unwrap();
        let start = Instant::now();
        while !t.is_finished() {
            std::thread::sleep(Duration::from_millis(5));
            if start.elapsed() > Duration::from_secs(40) || rss() > 3_000_000_000 { println!("FAIL case {} {} {}: does not terminate", a[2], a[3], a[4]); std::process::exit(1); }
        }
        let o = t.join().unwrap();
        println!("case: {}", o.desc);
        match o.res { Ok(()) => println!("OK"), Err(e) => { println!("FAIL case {} {} {}: {}", a[2], a[3], a[4], e); std::process::exit(1) } }
        return;
    }
    let prop = a[2].clone();
    let seed: u64 = a[3].parse().unwrap();
    let n_enum: u64 = a[4].parse().unwrap();
    let n_rand: u64 = a[5].parse().unwrap();
    let secs: f64 = a[6].parse().unwrap();
    let trace = std::env::var("REPLAY_TRACE").is_ok();
    let t0 = Instant::now();
    let found: &'static Mutex<Option<(bool, u64, String, String)>> = Box::leak(Box::new(Mutex::new(None)));
    let stats: &'static [AtomicU64; 3] = Box::leak(Box::new([AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0)]));
    let samples: &'static Mutex<Vec<String>> = Box::leak(Box::new(Mutex::new(vec![])));
    let distinct: &'static Mutex<std::collections::HashSet<u64>> = Box::leak(Box::new(Mutex::new(Default::default())));
    let mut hs = vec![];
    for t in 0..NT {
        let prop = prop.clone();
        hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            let mut local: std::collections::HashSet<u64> = Default::default();
            // enumerated cases first, then random ones
            for phase in 0..2 {
                let n = if phase == 0 { n_enum } else { n_rand };
                let mut i = t as u64;
                while i < n {
                    if DONE.load(Ordering::Relaxed) { break; }
                    if i % 64 == t as u64 && t0.elapsed().as_secs_f64() > secs * if phase == 0 { 0.5 } else { 1.0 } { break; }
                    let rng = phase == 1;
                    let id = if rng { seed.wrapping_mul(1_000_000_007).wrapping_add(i) } else { i };
                    CUR[t].store(id, Ordering::SeqCst);
                    MODE[t].store(rng, Ordering::SeqCst);
                    START[t].store(t0.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
                    if trace { eprintln!("CASE {} {}", if rng { "r" } else { "e" }, id); }
                    let o = run(&prop, id, rng);
                    START[t].store(0, Ordering::SeqCst);
                    stats[0].fetch_add(1, Ordering::Relaxed);
                    if o.nontrivial {
                        stats[1].fetch_add(1, Ordering::Relaxed);
                        use std::hash::{Hash, Hasher};
                        let mut h = std::collections::hash_map::DefaultHasher::new();
                        o.desc.hash(&mut h);
                        local.insert(h.finish());
                        if i > 40 && t == 0 { let mut s = samples.lock().unwrap(); if s.len() < 3 { s.push(o.desc.clone()); } }
                    }
                    if let Err(e) = o.res {
                        let mut f = found.lock().unwrap();
                        let better = match &*f { None => true, Some((r, k, _, _)) => (rng, id) < (*r, *k) };
                        if better { *f = Some((rng, id, o.desc, e)); }
                        DONE.store(true, Ordering::SeqCst);
                        break;
                    }
                    i += NT as u64;
                }
                if phase == 0 && i >= n { stats[2].fetch_add(1, Ordering::Relaxed); }
            }
            distinct.lock().unwrap().extend(local);
        }).unwrap());
    }
    // watchdog
    let hung = loop {
        if hs.iter().all(|h| h.is_finished()) { break None; }
        std::thread::sleep(Duration::from_millis(20));
        let now = t0.elapsed().as_millis() as u64;
        let big = rss() > 6_000_000_000;
        let mut worst: Option<(u64, usize)> = None;
        for t in 0..NT { let s = START[t].load(Ordering::SeqCst); if s > 0 { let d = now.saturating_sub(s); if worst.map(|w| d > w.0).unwrap_or(true) { worst = Some((d, t)); } } }
        if let Some((d, t)) = worst { if d > 30_000 || (big && d > 200) { break Some((MODE[t].load(Ordering::SeqCst), CUR[t].load(Ordering::SeqCst))); } }
    };
    let mut fail = found.lock().unwrap().clone();
    if let Some((rng, id)) = hung { if fail.is_none() { fail = Some((rng, id, "(see the replay command)".into(), "does not terminate (or uses unbounded memory)".into())); } }
    let s: Vec<String> = samples.lock().unwrap().iter().map(|x| json(x)).collect();
    print!("{{\"evaluations\": {}, \"nontrivial\": {}, \"distinct\": {}, \"enumeration_complete\": {}, \"seconds\": {:.2}, \"samples\": [{}]", stats[0].load(Ordering::SeqCst), stats[1].load(Ordering::SeqCst), distinct.lock().unwrap().len(), stats[2].load(Ordering::SeqCst) == NT as u64, t0.elapsed().as_secs_f64(), s.join(","));
    if let Some((rng, id, d, e)) = &fail { print!(", \"fail\": {{\"mode\": \"{}\", \"id\": {}, \"case\": {}, \"what\": {}}}", if *rng { "r" } else { "e" }, id, json(d), json(e)); }
    println!("}}");
    std::process::exit(if fail.is_some() { 1 } else { 0 });
}
fn rss() -> u64 { std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok())).unwrap_or(0) * 4096 }
