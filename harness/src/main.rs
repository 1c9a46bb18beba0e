//! vharness PROP --tier quick|thorough --seed N [--case STR] [--limit SECONDS]
//! Concrete counterexample search / bounded stand-in for the contract checks.
//! Prints one JSON object on stdout; exit code 0 (no failure), 1 (failure found), 2 (usage).
mod assume;
mod bitvec;
mod bp;
mod cfgs;
mod ef;
mod elems;
mod giant;
mod iters;
mod rmq;
mod rs;
mod util;
mod wavelet;

use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};
use util::Case;

fn cases(p: &str, thorough: bool, seed: u64) -> Vec<String> {
    let mut list = small_cases(p, thorough, seed);
    if thorough && (p <= "C08" || ("C17"..="C19").contains(&p)) {
        list.insert(0, giant::case(p));
    }
    list
}

fn small_cases(p: &str, thorough: bool, seed: u64) -> Vec<String> {
    match p {
        "C01" | "C02" | "C03" | "C04" => bitvec::cases(p, thorough, seed),
        "C05" | "C06" | "C07" | "C08" => rs::cases(p, thorough, seed),
        "C09" | "C10" | "C11" => ef::cases(p, thorough, seed),
        "C12" | "C13" => rmq::cases(p, thorough, seed),
        "C14" | "C15" | "C16" => wavelet::cases(p, thorough, seed),
        "C17" | "C18" | "C19" => bp::cases(p, thorough, seed),
        "C20" => elems::cases(p, thorough, seed),
        "C22" => cfgs::cases(thorough, seed),
        _ => {
            eprintln!("unknown property {p}");
            std::process::exit(2)
        }
    }
}

fn run(p: &str, c: &str) -> Result<u64, String> {
    let case = Case(c);
    if c.starts_with("t=giant") {
        return if p <= "C08" { giant::run(p) } else { giant::run_tree(p) };
    }
    match p {
        "C01" | "C02" | "C03" | "C04" => bitvec::run(p, &case),
        "C05" | "C06" | "C07" | "C08" => rs::run(p, &case),
        "C09" | "C10" | "C11" => ef::run(p, &case),
        "C12" | "C13" => rmq::run(p, &case),
        "C14" | "C15" | "C16" => wavelet::run(p, &case),
        "C17" | "C18" | "C19" => bp::run(p, &case),
        "C22" => cfgs::run(&case),
        _ => elems::run(p, &case),
    }
}

fn guarded(p: &str, c: &str) -> Result<u64, String> {
    match catch_unwind(AssertUnwindSafe(|| run(p, c))) {
        Ok(r) => r,
        Err(e) => {
            let msg = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            if msg.starts_with("CASE-SYNTAX") {
                eprintln!("{msg} in {c}");
                std::process::exit(2);
            }
            if p == "C22" {
                // only a difference between builds counts
                cfgs::DIGEST.with(|d| d.set(0xDEAD));
                return Ok(0);
            }
            Err(format!("panic: {msg}"))
        }
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 2 {
        std::process::exit(2);
    }
    let prop = args[1].clone();
    let opt = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned());
    let thorough = opt("--tier").as_deref() == Some("thorough");
    let seed: u64 = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let limit: u64 = opt("--limit").and_then(|s| s.parse().ok()).unwrap_or(3600);
    if prop == "ASSUME" {
        match assume::run(seed) {
            Ok(n) => println!("{{\"checks\":{n}}}"),
            Err(e) => println!("{{\"error\":{}}}", js(&e)),
        }
        return;
    }
    std::panic::set_hook(Box::new(|_| {}));
    let list = match opt("--case") {
        Some(c) => vec![c],
        None => cases(&prop, thorough, seed),
    };
    let total = list.len();
    let digests: Vec<AtomicU64> = list.iter().map(|_| AtomicU64::new(0)).collect();
    let start = Instant::now();
    let next = AtomicUsize::new(0);
    let evals = AtomicU64::new(0);
    let done = AtomicUsize::new(0);
    let cut = AtomicBool::new(false);
    let finished = AtomicBool::new(false);
    let fails: Mutex<Vec<(usize, String)>> = Mutex::new(vec![]);
    let nt = std::thread::available_parallelism().map_or(4, |n| n.get()).min(16);
    let running: Vec<Mutex<Option<(usize, Instant)>>> = (0..nt).map(|_| Mutex::new(None)).collect();
    let emit = |fails: &[(usize, String)], hung: Option<usize>| {
        let mut f: Vec<(usize, String)> = fails.to_vec();
        f.sort();
        if let Some(i) = hung {
            f.push((i, "no result within 120 s (non-termination?)".into()));
        }
        let fl: Vec<String> = f.iter().take(5).map(|(i, m)| format!("{{\"case\":{},\"message\":{}}}", js(&list[*i]), js(m))).collect();
        let stepk = (total / 5).max(1);
        let sm: Vec<String> = list.iter().step_by(stepk).take(5).map(|s| js(s)).collect();
        let dg: Vec<String> = if prop == "C22" { digests.iter().map(|d| d.load(SeqCst).to_string()).collect() } else { vec![] };
        let all: Vec<String> = if prop == "C22" { list.iter().map(|s| js(s)).collect() } else { vec![] };
        println!(
            "{{\"property\":{},\"cases\":{},\"completed\":{},\"evaluations\":{},\"cut_short\":{},\"failures\":{},\"failing\":[{}],\"samples\":[{}],\"digests\":[{}],\"list\":[{}],\"wall_s\":{:.2}}}",
            js(&prop), total, done.load(SeqCst), evals.load(SeqCst), cut.load(SeqCst), f.len(), fl.join(","), sm.join(","), dg.join(","), all.join(","), start.elapsed().as_secs_f64()
        );
        !f.is_empty()
    };
    let bad = std::thread::scope(|s| {
        for t in 0..nt {
            let (next, evals, done, cut, fails, running, list, prop, digests) = (&next, &evals, &done, &cut, &fails, &running, &list, &prop, &digests);
            s.spawn(move || loop {
                if start.elapsed().as_secs() > limit {
                    if next.load(SeqCst) < list.len() {
                        cut.store(true, SeqCst);
                    }
                    break;
                }
                if fails.lock().unwrap().len() >= 20 {
                    break;
                }
                let i = next.fetch_add(1, SeqCst);
                if i >= list.len() {
                    break;
                }
                *running[t].lock().unwrap() = Some((i, Instant::now()));
                match guarded(prop, &list[i]) {
                    Ok(n) => {
                        digests[i].store(cfgs::DIGEST.with(|d| d.replace(1)), SeqCst);
                        evals.fetch_add(n, SeqCst);
                    }
                    Err(m) => fails.lock().unwrap().push((i, m)),
                }
                *running[t].lock().unwrap() = None;
                done.fetch_add(1, SeqCst);
            });
        }
        // watchdog
        let (running, finished, fails, emit, list) = (&running, &finished, &fails, &emit, &list);
        let wd = s.spawn(move || loop {
            if finished.load(SeqCst) {
                return;
            }
            std::thread::sleep(Duration::from_millis(50));
            for r in running.iter() {
                if let Some((i, t)) = *r.lock().unwrap() {
                    if t.elapsed().as_secs() > if list[i].starts_with("t=giant") { 400 } else { 120 } {
                        let f = fails.lock().unwrap().clone();
                        emit(&f, Some(i));
                        std::process::exit(1);
                    }
                }
            }
        });
        // wait for workers: poll the running slots
        loop {
            std::thread::sleep(Duration::from_millis(20));
            let idle = running.iter().all(|r| r.lock().unwrap().is_none());
            let over = next.load(SeqCst) >= total || cut.load(SeqCst) || fails.lock().unwrap().len() >= 20 || start.elapsed().as_secs() > limit;
            if idle && over && done.load(SeqCst) >= next.load(SeqCst).min(total) {
                break;
            }
        }
        finished.store(true, SeqCst);
        let _ = wd.join();
        let f = fails.lock().unwrap().clone();
        emit(&f, None)
    });
    std::process::exit(if bad { 1 } else { 0 });
}
