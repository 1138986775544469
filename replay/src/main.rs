//! Executable contracts: the bounded stand-ins, and the search for a failing input behind a failed obligation.
//!   replay search <PROP> <seed> <seconds> <replay-file> [trace-file]
//!   replay replay <replay-file>
//! Both drive the real library through its public API and compare with reference functions written from the
//! property statements. Exit 0: nothing found; 1: violation (described on stdout, replay file written).
mod util;
mod jpeg;
mod jxl;
mod png;
mod tags;
mod meta;
mod codec;
mod tiff;
mod rational;
mod filetype;
mod webp;
mod heif;
mod xmp;
mod files;

use std::io::Write;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use util::*;

#[global_allocator]
static ALLOC: Watched = Watched;

type Gen = fn(&mut Search);
type Check = fn(&Case) -> Res;

fn table() -> Vec<(&'static str, Gen, Check)> {
    vec![
        ("P01", jpeg::gen_p01, jpeg::check_p01),
        ("P02", jpeg::gen_p02, jpeg::check_p02),
        ("P03", png::gen_p03, png::check_p03),
        ("P04", png::gen_p04, png::check_p04),
        ("P10", codec::gen_p10, codec::check_p10),
        ("P11", codec::gen_p11, codec::check_p11),
        ("P12", tiff::gen_p12, tiff::check_p12),
        ("P13", tiff::gen_p13, tiff::check_p13),
        ("P14", tiff::gen_p14, tiff::check_p14),
        ("P15", meta::gen_p15, meta::check),
        ("P16", meta::gen_p16, meta::check),
        ("P17", meta::gen_p17, meta::check),
        ("P18", meta::gen_p18, meta::check),
        ("P19", filetype::gen_p19, filetype::check_p19),
        ("P20", rational::gen_p20, rational::check_p20),
        ("P05", webp::gen_p05, webp::check),
        ("P06", webp::gen_p06, webp::check),
        ("P08", heif::gen_p08, heif::check),
        ("P09", heif::gen_p09, heif::check),
        ("P23", xmp::gen, xmp::check),
        ("P21", files::gen_p21, files::check),
        ("P22", files::gen_p22, files::check_read),
        ("P07", jxl::gen_p07, jxl::check_p07),
    ]
}

fn guarded(check: Check, c: &Case) -> Res {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| check(c))) {
        Ok(r) => r,
        Err(e) => Err(format!("panic: {}", e.downcast_ref::<String>().cloned()
            .or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("?".into()))),
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    match a.get(1).map(|s| s.as_str()) {
        Some("search") => {
            let (prop, seed, secs, out) = (a[2].clone(), a[3].parse::<u64>().unwrap(), a[4].parse::<f64>().unwrap(), a[5].clone());
            let trace = a.get(6).cloned();
            let (_, gen, check) = *table().iter().find(|t| t.0 == prop).expect("unknown property");
            let cur: Arc<Mutex<Option<(Case, Instant)>>> = Arc::new(Mutex::new(None));
            let cur2 = cur.clone();
            let out2 = out.clone();
            let known = known_findings(&prop);
            let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
                let c3 = cur2.clone();
                let mut s = Search::new(seed, Duration::from_secs_f64(secs), Box::new(move |c: &Case| {
                    if let Some(t) = &trace { std::fs::write(t, c.encode()).ok(); }
                    *c3.lock().unwrap() = Some((c.clone(), Instant::now()));
                    let r = guarded(check, c);
                    *c3.lock().unwrap() = None;
                    r
                }), known);
                gen(&mut s);
                s
            }).unwrap();
            loop {
                if h.is_finished() { break; }
                std::thread::sleep(Duration::from_millis(20));
                let g = cur.lock().unwrap();
                if let Some((c, t)) = &*g {
                    if t.elapsed() > Duration::from_secs(20) {
                        std::fs::write(&out2, c.encode_with("does not terminate within 20 s")).unwrap();
                        println!("FAIL does not terminate within 20 s: {}", c.short());
                        std::io::stdout().flush().ok();
                        std::process::exit(1);
                    }
                }
            }
            match h.join() {
                Ok(s) => {
                    for k in &s.known_seen { println!("KNOWN {k}"); }
                    println!("CASES {} NONTRIVIAL {} DISTINCT {} EXHAUSTIVE {}", s.cases, s.nontrivial, s.distinct.len(), s.notes.join("; "));
                    for c in &s.samples { println!("SAMPLE {c}"); }
                    if let Some((c, m)) = s.failure {
                        std::fs::write(&out, c.encode_with(&m)).unwrap();
                        println!("FAIL {m}: {}", c.short());
                        std::process::exit(1);
                    }
                }
                Err(_) => { println!("ERROR generator panicked"); std::process::exit(3); }
            }
        }
        Some("replay") => {
            let c = Case::decode(&std::fs::read_to_string(&a[2]).unwrap());
            let (_, _, check) = *table().iter().find(|t| t.0 == c.prop).expect("unknown property");
            match guarded(check, &c) {
                Ok(_) => { println!("HOLDS {}", c.short()); }
                Err(m) => { println!("FAIL {m}: {}", c.short()); std::process::exit(1); }
            }
        }
        _ => { eprintln!("usage"); std::process::exit(2); }
    }
}
