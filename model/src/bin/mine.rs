//! Offline search for seeds whose matrix sampling takes an unusual course.
//! mine <seconds> <threads> <start>: prints "kind k seed feature value" lines, best first.
//! kind d: the seed d of K-PKE.KeyGen; kind x: an X-Wing decapsulation key.
//! Features (of one polynomial, or of the whole matrix for `total`, `least_total`): see NAMES.
use refmodel::{fips203 as f, keccak};
use std::sync::Mutex;
use std::time::{Duration, Instant};

const NAMES: [&str; 9] = ["candidates", "rejected_triples_in_a_row", "rejected_in_a_row", "fewest", "accepted_in_a_row",
    "only_second_in_a_row", "total", "least_total", "rejected_in_first_block"];

fn course(rho: &[u8], a: u8, b: u8) -> [i64; 9] {
    let mut inp = rho.to_vec();
    inp.extend([a, b]);
    let mut x = keccak::shake128(&inp);
    let mut n = 0;
    let mut used = 0i64;
    let (mut rt, mut rr, mut aa, mut os) = (0i64, 0i64, 0i64, 0i64);
    let (mut mrt, mut mrr, mut maa, mut mos) = (0i64, 0i64, 0i64, 0i64);
    let mut first = 0;
    'all: loop {
        let buf = x.read(168);
        for c in buf.chunks(3) {
            let d = [u32::from(c[0]) + 256 * (u32::from(c[1]) % 16), u32::from(c[1]) / 16 + 16 * u32::from(c[2])];
            let ok = d.map(|d| d < f::Q);
            rt = if ok == [false, false] { rt + 1 } else { 0 };
            os = if ok == [false, true] { os + 1 } else { 0 };
            mrt = mrt.max(rt);
            mos = mos.max(os);
            for o in ok {
                used += 1;
                rr = if o { 0 } else { rr + 1 };
                aa = if o { aa + 1 } else { 0 };
                mrr = mrr.max(rr);
                maa = maa.max(aa);
                if !o && used <= 112 {
                    first += 1;
                }
                n += usize::from(o);
                if n == 256 {
                    break 'all;
                }
            }
        }
    }
    [used, mrt, mrr, -used, maa, mos, used, -used, first]
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let secs: u64 = a[1].parse().unwrap();
    let threads: u64 = a[2].parse().unwrap();
    let start: u64 = a[3].parse().unwrap();
    type Top = Vec<(i64, [u8; 32])>;
    let best: Mutex<Vec<(usize, char, usize, Top)>> = Mutex::new(vec![]);
    let tried = std::sync::atomic::AtomicU64::new(0);
    std::thread::scope(|s| {
        for t in 0..threads {
            let (best, tried) = (&best, &tried);
            s.spawn(move || {
                let (kind, k) = [('d', 2), ('d', 3), ('d', 4), ('x', 3)][(t % 4) as usize];
                let end = Instant::now() + Duration::from_secs(secs);
                let mut n = start + (t << 40);
                let mut top: Vec<Top> = vec![vec![]; 9];
                while n % 1024 != 0 || Instant::now() < end {
                    n += 1;
                    let mut seed = [0u8; 32];
                    seed[..8].copy_from_slice(&n.to_le_bytes());
                    let d: [u8; 32] = if kind == 'x' { keccak::shake128(&seed).read(32).try_into().unwrap() } else { seed };
                    let mut inp = d.to_vec();
                    inp.push(k as u8);
                    let (rho, _) = f::g(&inp);
                    let mut mx = [i64::MIN; 9];
                    let (mut total, mut least) = (0, 0);
                    for i in 0..k as u8 {
                        for j in 0..k as u8 {
                            let c = course(&rho, j, i);
                            for (m, v) in mx.iter_mut().zip(c) {
                                *m = (*m).max(v);
                            }
                            total += c[6];
                            least += c[7];
                        }
                    }
                    (mx[6], mx[7]) = (total, least);
                    for (top, v) in top.iter_mut().zip(mx) {
                        if top.len() < 4 || v > top[top.len() - 1].0 {
                            top.push((v, seed));
                            top.sort_by(|a, b| b.0.cmp(&a.0));
                            top.truncate(4);
                        }
                    }
                }
                tried.fetch_add(n - start - (t << 40), std::sync::atomic::Ordering::Relaxed);
                best.lock().unwrap().extend(top.into_iter().enumerate().map(|(i, t)| (i, kind, k, t)));
            });
        }
    });
    eprintln!("{} seeds", tried.into_inner());
    let mut b = best.into_inner().unwrap();
    b.sort_by_key(|x| (x.1, x.2, x.0));
    for (i, kind, k, t) in b {
        for (v, s) in t {
            println!("{kind} {k} {} {} {}", refmodel::selftest::hex(&s), NAMES[i], v.abs());
        }
    }
}
