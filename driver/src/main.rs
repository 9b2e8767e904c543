//! fxd-driver: runs the real library and writes what happened as traces for FxdTrace.tla.
//!
//!   gen  --profile P --seed S --from A --to B --out FILE    histories A..B of a profile
//!   size --profile P                                        number of histories of an exhaustive family
//!   prog --in FILE --ex BITS --from A --to B --out FILE     histories given as programs (one per line)
//!
//! A hang is an outcome: a watchdog writes the history so far with the operation marked by
//! outcome 8 and ends the process with code 77.

mod gen;
mod machine;
mod obs;
mod profiles;
mod prog;
mod rng;

use std::io::Write as _;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| ()));
    obs::calibrate();
    match a.get(1).map(|s| s.as_str()) {
        Some("size") => match profiles::size(&arg(&a, "--profile").unwrap()) {
            Some(n) => println!("{}", n),
            None => println!("0"),
        },
        Some("gen") => {
            let p = arg(&a, "--profile").unwrap();
            let seed: u64 = arg(&a, "--seed").unwrap().parse().unwrap();
            let from: u64 = arg(&a, "--from").unwrap().parse().unwrap();
            let to: u64 = arg(&a, "--to").unwrap().parse().unwrap();
            let step: u64 = arg(&a, "--step").map(|s| s.parse().unwrap()).unwrap_or(1);
            let hs: Vec<u64> = (from..to).step_by(step as usize).collect();
            write_histories(&arg(&a, "--out").unwrap(), hs, move |h, m| {
                profiles::history(&p, seed, h, m);
                m.again(seed ^ h)
            });
        }
        Some("prog") => {
            let text = std::fs::read_to_string(arg(&a, "--in").unwrap()).unwrap();
            let lines: Vec<String> = text.lines().map(|l| l.to_string()).collect();
            let ex: u8 = arg(&a, "--ex").map(|s| s.parse().unwrap()).unwrap_or(0);
            let from: u64 = arg(&a, "--from").unwrap().parse().unwrap();
            let to: u64 = arg(&a, "--to").unwrap().parse().unwrap();
            write_histories(&arg(&a, "--out").unwrap(), (from..to.min(lines.len() as u64)).collect(), move |h, m| {
                prog::run(&lines[h as usize], m, ex);
                m.again(h)
            });
        }
        _ => {
            eprintln!("usage: fxd-driver gen|prog|size ...");
            std::process::exit(2);
        }
    }
}

/// seconds of processor time used by this process
fn cpu() -> f64 {
    let stat = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let after = stat.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = after.split_whitespace().collect();
    let at = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (at(11) + at(12)) / 100.0
}

fn write_histories(out: &str, hs: Vec<u64>, mut f: impl FnMut(u64, &mut machine::Machine)) {
    let file = Arc::new(Mutex::new(std::io::BufWriter::new(std::fs::File::create(out).unwrap())));
    let tick = Arc::new(AtomicU64::new(0));
    // head of the event being executed, and the events of the history before it
    let current: Arc<Mutex<(u64, Vec<String>)>> = Arc::new(Mutex::new((0, vec![])));
    {
        let (file, tick, current) = (file.clone(), tick.clone(), current.clone());
        std::thread::spawn(move || {
            let mut last = (0, 0, cpu());
            loop {
                std::thread::sleep(std::time::Duration::from_millis(500));
                let t = tick.load(Ordering::Relaxed);
                if t == last.0 {
                    last.1 += 1;
                } else {
                    last = (t, 0, cpu());
                }
                // steps take microseconds, repeated ones a second at most: not done after 8 s of work,
                // or after a minute without any (a deadlock)
                if cpu() - last.2 > 8.0 || last.1 >= 120 {
                    // hung: what was being executed, as an event with outcome 8
                    let (h, heads) = current.lock().unwrap().clone();
                    let mut f = file.lock().unwrap();
                    let _ = f.flush();
                    drop(f);
                    eprintln!("HANG {} {} {}", h, heads.len(), heads.last().cloned().unwrap_or_default());
                    std::process::exit(77);
                }
            }
        });
    }
    let mut m = machine::Machine::new();
    {
        let (tick, current) = (tick.clone(), current.clone());
        m.on_event = Some(Box::new(move |head: &str| {
            tick.fetch_add(1, Ordering::Relaxed);
            let mut c = current.lock().unwrap();
            c.1.push(head.to_string());
        }));
    }
    for h in hs {
        {
            let mut c = current.lock().unwrap();
            c.0 = h;
            c.1.clear();
        }
        f(h, &mut m);
        let mut w = file.lock().unwrap();
        writeln!(w, "{{\"h\":{},\"ev\":[{}]}}", h, m.out).unwrap();
    }
    file.lock().unwrap().flush().unwrap();
}
