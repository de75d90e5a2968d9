mod cx;
mod fmt;
mod gen;
mod props;
use cx::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU8, Ordering};

/// Fills fresh memory with a pattern, so that reads of uninitialised memory give different results under different
/// patterns.
pub struct Poison;
pub static POISON: AtomicU8 = AtomicU8::new(0);
unsafe impl GlobalAlloc for Poison {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        let v = POISON.load(Ordering::Relaxed);
        if v != 0 && !p.is_null() && l.size() <= 1 << 20 {
            std::ptr::write_bytes(p, v, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        System.alloc_zeroed(l)
    }
}
#[global_allocator]
static ALLOC: Poison = Poison;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let prop = args[1].as_str();
    let get = |name: &str| args.iter().position(|a| a == name).map(|i| args[i + 1].clone());
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let secs: f64 = get("--secs").and_then(|s| s.parse().ok()).unwrap_or(30.0);
    let scale: f64 = get("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let thorough = args.iter().any(|a| a == "--thorough");
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if let Ok(mut g) = LAST_PANIC.try_lock() {
            *g = loc;
        }
    }));
    let kinds = props::kinds(prop);
    if let Some(case) = get("--case") {
        let (k, i) = case.rsplit_once(':').unwrap();
        let kind = match k.parse::<usize>() {
            Ok(n) => &kinds[n],
            Err(_) => kinds.iter().find(|x| x.name == k).unwrap(),
        };
        let (cx, res) = run_case(kind, seed, i.parse().unwrap(), thorough);
        println!("case {}:{} seed {seed}", kind.name, i);
        println!("input: {}", cx.input);
        match res {
            Ok(()) => println!("PASS"),
            Err(e) => {
                println!("FAIL: {e}");
                std::process::exit(1);
            }
        }
        return;
    }
    let marks = get("--marks").unwrap_or("/dev/null".into());
    let threads = get("--threads").and_then(|s| s.parse().ok()).unwrap_or(8);
    let (stats, failure, per_kind) = run_all(&kinds, seed, thorough, secs, threads, &marks, scale);
    let dig = {
        let v: Vec<u64> = stats.digests.iter().flat_map(|(a, b)| [*a, *b]).collect();
        hash(&v)
    };
    if let Some(path) = get("--digests") {
        let text: String = stats.digests.iter().map(|(i, d)| format!("{i} {d:016x}\n")).collect();
        std::fs::write(path, text).unwrap();
    }
    let mut out = String::from("{");
    out += &format!("\"property\":{},", json_str(prop));
    out += &format!("\"evaluations\":{},", stats.evaluations);
    out += &format!("\"distinct_nontrivial\":{},", stats.keys.len());
    out += &format!("\"digest\":\"{dig:016x}\",\"digests\":{},", stats.digests.len());
    out += &format!(
        "\"per_kind\":{{{}}},",
        per_kind.iter().map(|(k, n)| format!("{}:{}", json_str(k), n)).collect::<Vec<_>>().join(",")
    );
    out += &format!("\"samples\":[{}],", stats.samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(","));
    match &failure {
        None => out += "\"failure\":null}",
        Some(f) => {
            out += &format!(
                "\"failure\":{{\"kind\":{},\"idx\":{},\"seed\":{},\"message\":{},\"input\":{}}}}}",
                json_str(f.kind),
                f.idx,
                seed,
                json_str(&f.msg),
                json_str(&clip(&f.input, 20000))
            )
        }
    }
    println!("{out}");
    if failure.is_some() {
        std::process::exit(1);
    }
}
