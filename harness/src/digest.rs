//! Cuts of numbered cases as one line each, to compare them between processes and builds.
use crate::gen::{self, Gen, Regime, TABLES};
use crate::model::Model;
use crate::rng::{mix, Rng};
use crate::run::{self, Log};

const DICT: [u64; 12] = [3, 16, 31, 32, 64, 255, 256, 1000, 4096, 8191, 8192, 65536];

pub fn hash(h: u64, v: &[usize]) -> u64 {
    let mut h = mix(h ^ v.len() as u64);
    for x in v {
        h = mix(h ^ *x as u64);
    }
    h
}

fn cuts(seed: u64, idx: u64, algo: usize, show: bool) -> Result<(u64, usize), String> {
    let mut r = Rng::new(&[0xd16e57, seed, idx, algo as u64]);
    if idx % 25 == 24 {
        if let Some(cfg) = gen::beyond(&mut r, algo) {
            // whether it can be made, and then what it does
            if show {
                println!("{:?}", cfg);
            }
            let d = r.bytes(700);
            let ch = adapt::build(&cfg, &TABLES);
            let mut log = Log::default();
            let a = run::search(&mut *ch.search(), &d, &[700], false, &mut log)?;
            let b = run::incr(&mut *ch.incr(), &d, &[300, 400], &mut log)?;
            return Ok((hash(hash(2, &a), &b), a.len() + b.len()));
        }
    }
    let g = [Regime::Small, Regime::Usual, Regime::Small, Regime::Extreme][idx as usize % 4];
    let cfg = gen::cfg(&mut r, &DICT, algo, g);
    let m = Model::new(&cfg);
    let n = Gen { r: &mut r, m: &m, dict: &DICT }.size(false);
    let d = Gen { r: &mut r, m: &m, dict: &DICT }.data(n);
    let (_, segs) = gen::segs(&mut r, d.len(), &[], &[64, 256], &DICT);
    let ch = adapt::build(&cfg, &TABLES);
    let mut log = Log::default();
    let a = run::search(&mut *ch.search(), &d, &segs, false, &mut log)?;
    let b = run::incr(&mut *ch.incr(), &d, &segs, &mut log)?;
    let c = run::iter(ch.incr(), &d, idx % 2 == 0, &mut log)?;
    if show {
        println!("{:?}, {} bytes in {} hand-overs", cfg, d.len(), segs.len());
        println!("search {:?}\npush {:?}\nslices {:?}", a, b, c);
    }
    Ok((hash(hash(hash(1, &a), &b), &c), a.len() + b.len() + c.len()))
}

pub fn line(seed: u64, idx: u64, algo: usize, show: bool) -> String {
    match crate::caught(|| cuts(seed, idx, algo, show)) {
        Ok((h, n)) => format!("{} {} {:016x} {}", idx, crate::model::ALGOS[algo], h, n),
        Err(e) => {
            // only that it failed: the place differs between builds
            if show {
                println!("{}", e);
            }
            format!("{} {} failed 0", idx, crate::model::ALGOS[algo])
        }
    }
}

/// <seed> <from> <to> <algorithms, by number> [reverse|threads|show]
pub fn main(a: &[&str]) -> i32 {
    let (Ok(seed), Ok(from), Ok(to)) = (a[0].parse::<u64>(), a[1].parse::<u64>(), a[2].parse::<u64>()) else {
        return 2;
    };
    let algos: Vec<usize> = a[3].split(',').filter_map(|s| s.parse().ok()).collect();
    let mut jobs = vec![];
    for i in from..to {
        for k in &algos {
            jobs.push((i, *k));
        }
    }
    let how = a.get(4).copied().unwrap_or("");
    if let Some(w) = how.strip_prefix("batches:") {
        // <seed>:<count>: some cases of one algorithm after one another, on a fresh thread each time
        let w: Vec<u64> = w.split(':').filter_map(|s| s.parse().ok()).collect();
        let mut r = Rng::new(&[0xba7c4, seed, w[0]]);
        for _ in 0..w[1] {
            let k = *r.pick(&algos);
            let l: Vec<u64> = (0..r.us(2, 8)).map(|_| r.range(from, to - 1)).collect();
            let v = std::thread::spawn(move || l.iter().map(|i| line(seed, *i, k, false)).collect::<Vec<_>>());
            for l in v.join().unwrap_or_default() {
                println!("{}", l);
            }
        }
        return 0;
    }
    if how == "reverse" {
        jobs.reverse();
    }
    let show = how == "show";
    let mut out: Vec<(u64, usize, String)> = if how == "threads" {
        let next = std::sync::atomic::AtomicUsize::new(0);
        let res = std::sync::Mutex::new(vec![]);
        std::thread::scope(|s| {
            for _ in 0..4 {
                s.spawn(|| loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    let Some((i, k)) = jobs.get(i) else { break };
                    let l = line(seed, *i, *k, false);
                    res.lock().unwrap().push((*i, *k, l));
                });
            }
        });
        res.into_inner().unwrap()
    } else {
        jobs.iter().map(|(i, k)| (*i, *k, line(seed, *i, *k, show))).collect()
    };
    out.sort();
    for l in out {
        println!("{}", l.2);
    }
    0
}
