//! Prints one line per observed value: "section case step digest". With --verbose the value itself.
//!
//!   transcript SECTION[,SECTION...] CASES [--lite] [--verbose] [--from N]

use probe::{Fnv, Sink};
use std::io::Write;

struct Out<'a> {
    w: &'a mut dyn Write,
    verbose: bool,
    lines: u64,
}
impl Sink for Out<'_> {
    fn put(&mut self, section: &'static str, case: u64, step: &'static str, bytes: &[u8]) {
        let mut h = Fnv::new();
        h.put(bytes);
        let step = step.replace(' ', "-");
        if self.verbose {
            let hex: String = bytes.iter().map(|b| format!("{b:02x}")).collect();
            writeln!(self.w, "{section} {case} {step} {:016x} {hex}", h.0).unwrap();
        } else {
            writeln!(self.w, "{section} {case} {step} {:016x}", h.0).unwrap();
        }
        self.lines += 1;
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let has = |k: &str| a.iter().any(|x| x == k);
    let from: u64 = a.iter().position(|x| x == "--from").map_or(0, |i| a[i + 1].parse().unwrap());
    let n: u64 = a[2].parse().unwrap();
    let stdout = std::io::stdout();
    let mut lock = std::io::BufWriter::new(stdout.lock());
    let mut out = Out { w: &mut lock, verbose: has("--verbose"), lines: 0 };
    for s in probe::SECTIONS {
        if a[1] != "all" && !a[1].split(',').any(|x| x == *s) {
            continue;
        }
        for i in from..from + n {
            if !probe::run(s, i, has("--lite"), &mut out) {
                break;
            }
        }
    }
    let lines = out.lines;
    writeln!(lock, "end {lines}").unwrap();
}
