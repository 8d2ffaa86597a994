mod gen; mod refm; mod props; mod capi;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::*;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Default)]
pub struct Ctx { pub nontrivial: bool, pub desc: String }
pub type Check = fn(u64, u64, &mut Ctx) -> Result<(), String>;

fn hash(s: &str) -> u64 { s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)) }
fn esc(s: &str) -> String { let mut o = String::new(); for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", c if (c as u32) < 32 => o += " ", c => o.push(c) } } o }

thread_local!(static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) });
static LASTPANIC: Mutex<String> = Mutex::new(String::new());

fn run(check: Check, idx: u64, seed: u64) -> (Result<(), String>, Ctx) {
    let mut ctx = Ctx::default();
    let res = catch_unwind(AssertUnwindSafe(|| check(idx, seed, &mut ctx)));
    let res = match res { Ok(r) => r, Err(_) => {
        let own = PANIC.with(|p| std::mem::take(&mut *p.borrow_mut()));
        Err(format!("PANIC {}", if own.is_empty() { LASTPANIC.lock().unwrap().clone() } else { own }))
    } };
    (res, ctx)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop = a[1].as_str();
    let get = |k: &str, d: u64| a.iter().position(|x| x == k).map(|i| a[i + 1].parse::<u64>().unwrap()).unwrap_or(d);
    let seed = get("--seed", 1);
    let secs = get("--secs", 10);
    let threads = get("--threads", 4);
    let min_cases = get("--min", 64);
    let max_cases = get("--max", u64::MAX);
    let progress = a.iter().position(|x| x == "--progress").map(|i| a[i + 1].clone());
    std::panic::set_hook(Box::new(|i| {
        let s = i.to_string();
        *LASTPANIC.lock().unwrap() = s.clone();
        PANIC.with(|p| *p.borrow_mut() = s);
    }));
    let Some(check) = props::get(prop) else { eprintln!("unknown property"); std::process::exit(4) };
    if let Some(i) = a.iter().position(|x| x == "--case") {
        let (idx, s): (u64, u64) = (a[i + 1].parse().unwrap(), a[i + 2].parse().unwrap());
        let (r, ctx) = run(check, idx, s);
        match r {
            Ok(()) => { println!("{{\"kind\":\"case\",\"ok\":true,\"desc\":\"{}\"}}", esc(&ctx.desc)); },
            Err(e) => { println!("{{\"kind\":\"case\",\"ok\":false,\"msg\":\"{}\",\"desc\":\"{}\"}}", esc(&e), esc(&ctx.desc)); std::process::exit(1) },
        }
        return;
    }
    let next = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let viol: Arc<Mutex<Vec<(u64, u64, String, String)>>> = Default::default();
    let seen: Arc<Mutex<(u64, HashSet<u64>, Vec<String>)>> = Default::default();
    let busy: Arc<Vec<Mutex<Option<(Instant, u64, u64)>>>> = Arc::new((0..threads).map(|_| Mutex::new(None)).collect());
    let start = Instant::now();
    let deadline = start + Duration::from_secs(secs);
    let base = hash(prop) ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
    let mut hs = vec![];
    for t in 0..threads as usize {
        // what is running, for when the process crashes
        let note = progress.as_ref().and_then(|p| std::fs::File::create(format!("{p}.{t}")).ok());
        let (next, stop, viol, seen, busy) = (next.clone(), stop.clone(), viol.clone(), seen.clone(), busy.clone());
        hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            loop {
                let idx = next.fetch_add(1, Ordering::SeqCst);
                if stop.load(Ordering::SeqCst) || idx >= max_cases || (idx >= min_cases && Instant::now() > deadline) { break; }
                let s = gen::Rng::new(base ^ idx.wrapping_mul(0xD1342543DE82EF95)).next();
                *busy[t].lock().unwrap() = Some((Instant::now(), idx, s));
                if let Some(f) = &note { use std::os::unix::fs::FileExt; let _ = f.write_at(format!("{idx:12} {s:22}\n").as_bytes(), 0); }
                let (r, ctx) = run(check, idx, s);
                *busy[t].lock().unwrap() = None;
                let mut g = seen.lock().unwrap();
                g.0 += 1;
                if ctx.nontrivial { g.1.insert(hash(&ctx.desc)); if g.2.len() < 4 { g.2.push(ctx.desc.clone()); } }
                drop(g);
                if let Err(e) = r { viol.lock().unwrap().push((idx, s, e, ctx.desc)); stop.store(true, Ordering::SeqCst); }
            }
        }).unwrap());
    }
    // watchdog: a single case that runs for minutes is a hang. It also leaves a note of what is running for crashes.
    let w = { let (stop, busy) = (stop.clone(), busy.clone()); std::thread::spawn(move || {
        let done = || stop.load(Ordering::SeqCst);
        loop {
            std::thread::sleep(Duration::from_millis(20));
            let cur: Vec<_> = busy.iter().map(|b| *b.lock().unwrap()).collect();
            for c in cur.iter().flatten() {
                if c.0.elapsed() > Duration::from_secs(240) {
                    println!("{{\"kind\":\"violation\",\"idx\":{},\"case\":{},\"msg\":\"HANG: the case did not finish in 240 s\",\"desc\":\"\"}}", c.1, c.2);
                    std::process::exit(1);
                }
            }
            if done() { break }
        }
    }) };
    for h in hs { let _ = h.join(); }
    stop.store(true, Ordering::SeqCst);
    let _ = w.join();
    let g = seen.lock().unwrap();
    let v = viol.lock().unwrap();
    for (idx, s, e, d) in v.iter() {
        println!("{{\"kind\":\"violation\",\"idx\":{},\"case\":{},\"msg\":\"{}\",\"desc\":\"{}\"}}", idx, s, esc(e), esc(d));
    }
    println!("{{\"kind\":\"summary\",\"evaluations\":{},\"distinct_nontrivial\":{},\"samples\":[{}],\"wall\":{:.2}}}", g.0, g.1.len(),
        g.2.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(","), start.elapsed().as_secs_f64());
    std::process::exit(if v.is_empty() { 0 } else { 1 });
}
