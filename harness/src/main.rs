mod fw;
mod gen;
mod kemset;
mod os;
mod p_codec;
mod p_dhkem;
mod p_fault;
mod p_hostile;
mod p_pure;
#[cfg(feature = "generic")]
mod p_generic;
mod p_mlkem;
mod p_xwing;
mod preempt;
mod rngs;
#[cfg(feature = "generic")]
mod sets;

use std::time::{Duration, Instant};

#[global_allocator]
static HEAP: fw::Heap = fw::Heap;

/// Supplied for builds with `--cfg kem_monitor`; only the C10 monitor makes use of it.
#[no_mangle]
pub extern "C" fn kem_monitor_declassify(_ptr: *mut u8, _len: usize) {}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 2 {
        eprintln!("usage: mon Cxx [--seed N] [--tier quick|thorough] [--only stage:index] [--out FILE] [--threads N] [--scale F] [--budget SECONDS]");
        std::process::exit(2);
    }
    let prop = args[1].clone();
    if prop == "os-child" {
        return p_fault::os_child(&args[2]);
    }
    if prop == "first-use" {
        return p_pure::first_use(&args[2]);
    }
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let thorough = get("--tier").as_deref() == Some("thorough");
    let budget: f64 = get("--budget").map_or(if thorough { 7200.0 } else { 500.0 }, |s| s.parse().unwrap());
    let mut ctx = fw::Ctx {
        seed: get("--seed").map_or(1, |s| s.parse().unwrap()),
        prop: prop.clone(),
        thorough,
        heap_only: prop == "C22",
        safety_only: prop == "C11",
        prefix: String::new(),
        only: get("--only").map(|s| {
            let (a, b) = s.rsplit_once(':').unwrap();
            (a.to_string(), b.parse().unwrap())
        }),
        threads: get("--threads").map_or(8, |s| s.parse().unwrap()),
        scale: get("--scale").map_or(1.0, |s| s.parse().unwrap()),
        total: fw::Local::default(),
        violations: vec![],
        errors: vec![],
        stages: vec![],
        truncated: vec![],
        deadline: Instant::now() + Duration::from_secs_f64(budget),
    };
    let selftest = std::panic::catch_unwind(|| refmodel::selftest::run(true)).unwrap_or_else(|_| Err("panic".into()));
    match selftest {
        Ok(n) => {
            ctx.total.counts.insert("model_selftest_checks".into(), n as u64);
        }
        Err(e) => ctx.errors.push(format!("model self-test: {e}")),
    }
    fw::install_hooks();
    fw::Ctx::start_watchdog();
    if ctx.errors.is_empty() {
        match prop.as_str() {
            "C01" => p_mlkem::c01(&mut ctx),
            "C02" => p_mlkem::c02(&mut ctx),
            "C03" => p_mlkem::c03(&mut ctx),
            "C04" => p_mlkem::c04(&mut ctx),
            "C05" => p_mlkem::c05(&mut ctx),
            "C06" => p_codec::c06(&mut ctx),
            "C07" => p_codec::c07(&mut ctx),
            "C15" => p_xwing::c15(&mut ctx),
            "C16" => p_xwing::c16(&mut ctx),
            "C17" => p_xwing::c17(&mut ctx),
            "C18" => p_xwing::c18(&mut ctx),
            "C19" => p_dhkem::c19(&mut ctx),
            "C20" => p_dhkem::c20(&mut ctx),
            "C21" => p_dhkem::c21(&mut ctx),
            "C23" => p_dhkem::c23(&mut ctx),
            #[cfg(feature = "generic")]
            "C14" => p_generic::c14(&mut ctx),
            "C08" => p_fault::c08(&mut ctx),
            "C12" => p_pure::c12(&mut ctx),
            "C11" | "C22" => {
                type Work = fn(&mut fw::Ctx);
                let all: [(&str, Work); 11] = [
                    ("c01", p_mlkem::c01),
                    ("c02", p_mlkem::c02),
                    ("c03", p_mlkem::c03),
                    ("c04", p_mlkem::c04),
                    ("c05", p_mlkem::c05),
                    ("c06", p_codec::c06),
                    ("c07", p_codec::c07),
                    ("c15", p_xwing::c15),
                    ("c16", p_xwing::c16),
                    ("c17", p_xwing::c17),
                    ("c19", p_dhkem::c19),
                ];
                if prop == "C11" {
                    p_hostile::c11(&mut ctx);
                }
                let more: [(&str, Work); 4] = [("c18", p_xwing::c18), ("c20", p_dhkem::c20), ("c21", p_dhkem::c21), ("c23", p_dhkem::c23)];
                let short = args.iter().any(|a| a == "--hostile-only");
                for (n, f) in all.into_iter().chain(more.into_iter().filter(|_| prop == "C11")) {
                    if short {
                        break;
                    }
                    ctx.prefix = format!("{n}/");
                    f(&mut ctx);
                }
                #[cfg(feature = "generic")]
                if prop == "C11" && !short {
                    ctx.prefix = "c14/".into();
                    p_generic::c14(&mut ctx);
                }
            }
            _ => ctx.errors.push("unknown property".into()),
        }
    }
    let j = ctx.json();
    if let Some(f) = get("--out") {
        std::fs::write(f, &j).unwrap();
    } else {
        println!("{j}");
    }
    for v in &ctx.violations {
        eprintln!("VIOLATED {}:{} {}\n  {}", v.stage, v.index, v.what, v.detail);
    }
    for e in &ctx.errors {
        eprintln!("ERROR {e}");
    }
    std::process::exit(if !ctx.violations.is_empty() {
        1
    } else if !ctx.errors.is_empty() {
        2
    } else {
        0
    });
}
