#![allow(dead_code, unused_imports)]
//! Counterexample search and replay against the real crate (public API only).
mod util;
mod p_tile;
mod p_meta;
mod p_io;
use std::collections::HashSet;
use std::time::{Duration, Instant};
use util::*;

type Case = fn(u64, &mut Rng, &mut Trace) -> Res;

fn table() -> Vec<(&'static str, &'static [(&'static str, Case)])> {
    let mut v = p_tile::TABLE.to_vec();
    v.extend_from_slice(p_meta::TABLE);
    v.extend_from_slice(p_io::TABLE);
    v
}

fn run_case(f: Case, seed: u64, i: u64) -> (Trace, Res) {
    let mut t = Trace::default();
    let mut r = Rng::new(seed, i);
    let res = {
        let tp = std::panic::AssertUnwindSafe((&mut r, &mut t));
        std::panic::catch_unwind(move || {
            let tp = tp;
            let std::panic::AssertUnwindSafe((r, t)) = tp;
            f(i, r, t)
        })
    };
    let res = match res {
        Ok(r) => r,
        Err(p) => {
            let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("?".into());
            let l = LAST.lock().unwrap().clone();
            Err(format!("panic: {m} at {l}"))
        }
    };
    (t, res)
}
static LAST: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
    let prop = a[1].clone();
    let seed: u64 = get("--seed").map(|s| s.parse().unwrap()).unwrap_or(1);
    let secs: f64 = get("--secs").map(|s| s.parse().unwrap()).unwrap_or(5.0);
    let min: u64 = get("--min").map(|s| s.parse().unwrap()).unwrap_or(200);
    let max: u64 = get("--max").map(|s| s.parse().unwrap()).unwrap_or(u64::MAX);
    let only: Option<u64> = get("--only").map(|s| s.parse().unwrap());
    let suite: Option<String> = get("--suite");
    std::panic::set_hook(Box::new(|i| {
        if let Ok(mut l) = LAST.lock() {
            *l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        }
    }));
    if prop == "list" {
        for (p, c) in table() {
            println!("{p} {}", c.iter().map(|x| x.0).collect::<Vec<_>>().join(","));
        }
        return;
    }
    let (_, suites) = table().into_iter().find(|x| x.0 == prop).expect("no such property");
    // the running case, for a parent that sees this process die or hang
    let progress = get("--progress").map(|p| std::fs::File::create(p).unwrap());
    let start = Instant::now();
    let mut total = 0u64;
    let mut keys = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let per = secs / suites.len() as f64;
    for (name, f) in suites {
        if suite.as_ref().map_or(false, |s| s != name) {
            continue;
        }
        let dl = Instant::now() + Duration::from_secs_f64(per);
        let mut i = only.unwrap_or(0);
        loop {
            if only.is_none() && (i >= max || (i >= min && Instant::now() > dl)) {
                break;
            }
            if let Some(f) = &progress {
                use std::os::unix::fs::FileExt;
                let _ = f.write_at(format!("{name:>24} {i:>20}\n").as_bytes(), 0);
            }
            let (t, res) = run_case(*f, seed, i);
            total += 1;
            let mut key = t.key;
            for c in name.bytes() {
                key = key.wrapping_mul(31).wrapping_add(c as u64);
            }
            if keys.len() < 2_000_000 {
                keys.insert(key);
            }
            if samples.len() < 6 && i % 37 == 3 {
                samples.push(format!("{name}#{i}: {}", t.notes.join("; ").chars().take(200).collect::<String>()));
            }
            if let Err(m) = res {
                println!(
                    "{{\"fail\":true,\"property\":{},\"suite\":{},\"seed\":{seed},\"case\":{i},\"input\":{},\"observed\":{},\"evaluations\":{total}}}",
                    esc(&prop), esc(name), esc(&t.notes.join("; ")), esc(&m)
                );
                std::process::exit(1);
            }
            if only.is_some() {
                println!("{name}#{i}: ok: {}", t.notes.join("; "));
                break;
            }
            i += 1;
        }
    }
    println!(
        "{{\"fail\":false,\"property\":{},\"seed\":{seed},\"evaluations\":{total},\"distinct\":{},\"secs\":{:.1},\"samples\":[{}]}}",
        esc(&prop), keys.len(), start.elapsed().as_secs_f64(), samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",")
    );
}
