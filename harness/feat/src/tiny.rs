//! Small cases for the sanitizers and the interpreter: every slice in an allocation of its own,
//! every interface of every algorithm, states abused, instances shared between threads. Whatever
//! they find ends the process.
use crate::gen::{self, Regime, TABLES};
use crate::model::{Api, Model, ALGOS};
use crate::rng::Rng;
use crate::run::{self, Log};
use adapt::{build, Cfg, Chunker};

/// 32 bytes after which zstd's hash has its low 24 bits set
static ZSTD: [u8; 32] = include!("zstd24.in");
/// and its low 32 bits, but not all of the next two
static ZSTD_HALF: [u8; 32] = include!("zstd32.in");

fn data(r: &mut Rng, m: &Model, big: bool) -> Vec<u8> {
    let n = if big { r.log(1, 40_000) } else { r.log(1, 300) } as usize;
    let b = r.u64() as u8;
    let mut v = match r.below(5) {
        0 => vec![b; n],
        1 => (0..n).map(|i| b.wrapping_add(i as u8)).collect(),
        2 => (0..n).map(|_| r.below(3) as u8 * 127).collect(),
        _ => r.bytes(n),
    };
    if let Model::Zstd { .. } = m {
        for _ in 0..2 {
            let i = r.us(0, v.len());
            v.splice(i..i, ZSTD);
        }
    }
    v
}

fn cfg(r: &mut Rng, algo: usize, big: bool) -> Cfg {
    loop {
        let g = if r.p(1, 3) { Regime::Extreme } else { Regime::Small };
        let mut c = gen::cfg(r, &[16, 64, 255, 256], algo, g);
        if !big {
            // the interpreter is slow
            match &mut c {
                Cfg::Bup { window: Some(w) } => *w = (*w).min(300),
                Cfg::Buz { k, .. } => *k = (*k).min(300),
                Cfg::Gzip { p: Some((w, _)) } => *w = (*w).min(300),
                _ => {}
            }
        }
        if let Cfg::Zstd { section } = &mut c {
            *section = Some(1 << r.range(20, 24));
        }
        return c;
    }
}

/// All cuts, by every interface; what a check of its own decides is not judged here.
fn drive(ch: &dyn Chunker, d: &[u8], segs: &[usize], slow: bool) -> Vec<Result<Vec<usize>, String>> {
    let mut log = Log::default();
    let own: Box<[u8]> = d.into();
    vec![
        run::incr_boxed(&mut *ch.incr(), d, segs, &mut log),
        run::search(&mut *ch.search(), &own, segs, slow && d.len() < 2000, &mut log),
        run::iter(ch.incr(), &own, true, &mut log),
        run::iter(ch.incr(), &own, false, &mut log),
    ]
}

fn edges(v: &[Result<Vec<usize>, String>]) -> usize {
    v.iter().flatten().map(|c| c.len()).sum()
}

/// One of the limits plus a multiple of 2^32: a machine's word may not be enough for it
fn beyond_word(r: &mut Rng, c: &mut Cfg) {
    use std::ops::Bound::*;
    let by = r.range(1, 3) << 32;
    let which = r.below(3);
    match c {
        Cfg::Buz { max, .. } => *max = r.below(40) + by,
        Cfg::FastCdc { p: Some((_, min, normal, max)) } => {
            *max += by;
            if which > 0 {
                *normal += by;
            }
            if which > 1 {
                *min += by;
            }
        }
        Cfg::Gzip { p: Some((_, m)) } => *m = m.saturating_add(by),
        Cfg::Zpaq(adapt::ZpaqHow::AvgRange(_, a, b)) => {
            for (i, x) in [b, a].into_iter().enumerate() {
                if i > 0 && which == 0 {
                    break;
                }
                if let Included(k) | Excluded(k) = x {
                    *k = k.saturating_add(by);
                }
            }
        }
        Cfg::Zstd { section } => *section = Some(1 << r.range(33, 40)),
        Cfg::Mii { w: Some(w) } => *w = w.saturating_add(by),
        Cfg::Ram { w } => *w = w.saturating_add(by),
        _ => {}
    }
}

/// For slow machines: little data, words of which are not the same from both ends
fn far(seed: u64, idx: u64) -> usize {
    let mut r = Rng::new(&[0xfa4, seed, idx]);
    let algo = (idx % 10) as usize;
    let mut c = match (algo, r.below(5)) {
        (_, 0) => cfg(&mut r, algo, false),
        (0, _) => Cfg::Bup { window: Some(r.us(1, 40)) },
        (1, _) => Cfg::Buz {
            k: r.us(1, 20),
            mask: u32::MAX.checked_shl(r.range(26, 32) as u32).unwrap_or(0) >> *r.pick(&[0, 5, 26]),
            max: if r.p(1, 3) { r.range(1, 70) } else { u64::MAX },
            hash: adapt::BuzH::Salt(r.u64() as u8, adapt::Table32::Go),
        },
        (2, _) => Cfg::Gear { log2: Some(r.us(1, 6)) },
        (3, _) => {
            let min = r.range(1, 20);
            let normal = min + r.below(20);
            let t = adapt::Table64::Made(r.below(8) as u8, r.below(4) as u8);
            Cfg::FastCdc { p: Some((t, min, normal, normal + r.range(1, 20))) }
        }
        (4, _) => Cfg::Gzip { p: Some((r.us(1, 30), r.range(1, 50))) },
        (5, _) => Cfg::Pigz { bits: Some(r.range(2, 7) as u8) },
        (6, _) => Cfg::Zpaq(adapt::ZpaqHow::AvgRange(
            r.range(0, 7) as u8,
            std::ops::Bound::Included(r.range(1, 20)),
            std::ops::Bound::Excluded(r.range(22, 80)),
        )),
        (8, _) => Cfg::Mii { w: Some(r.range(1, 5)) },
        (9, _) => Cfg::Ram { w: r.range(0, 30) },
        _ => cfg(&mut r, algo, false),
    };
    if r.p(1, 4) {
        beyond_word(&mut r, &mut c);
    }
    let mut d = vec![];
    for _ in 0..r.us(1, 8) {
        let b: u8 = *r.pick(&[0, 0, 0, 1, 14, 127, 128, 255, 255]);
        match r.below(6) {
            0 => d.extend(r.bytes(9)),
            1 => d.extend((0..r.us(1, 20)).map(|i| b.wrapping_add(i as u8))),
            2 => d.extend(r.bytes(40)),
            3 => d.push(r.u64() as u8),
            _ => d.extend(vec![b; r.us(1, 24)]),
        }
    }
    if algo == 7 {
        if r.p(1, 2) {
            d.push(b'.');
            d.extend(ZSTD_HALF);
        }
        d.extend(ZSTD);
    }
    let mut segs = vec![];
    let mut left = d.len();
    while left > 0 {
        let k = if r.p(1, 2) { left } else { r.us(1, left) };
        segs.push(k);
        left -= k;
    }
    let ch = build(&c, &TABLES);
    let mut log = Log::default();
    let got = crate::caught(|| {
        Ok([
            run::incr(&mut *ch.incr(), &d, &segs, &mut log),
            run::search(&mut *ch.search(), &d, &segs, false, &mut log),
            run::iter(ch.incr(), &d, true, &mut log),
        ])
    });
    let (mut h, mut n) = (0, 0);
    for v in got.iter().flatten() {
        h = crate::digest::hash(h + 1, v.as_ref().map_or(&[7][..], |v| v));
        n += v.as_ref().map_or(0, |v| v.len());
    }
    let given: Vec<usize> = d.iter().map(|b| *b as usize).chain(segs).collect();
    println!("CASE {} {} {:016x} {:016x} {}", idx, ALGOS[algo], crate::digest::hash(r.u64(), &given), h, n);
    n
}

/// the number of edges, or where runs differ
fn case(seed: u64, idx: u64, big: bool, threads: bool, show: bool) -> Result<usize, String> {
    let mut r = Rng::new(&[0x717, seed, idx]);
    let algo = (idx % 10) as usize;
    let c = cfg(&mut r, algo, big);
    let m = Model::new(&c);
    let ch = build(&c, &TABLES);
    let mut jobs = vec![];
    for _ in 0..if threads { 3 } else { 1 } {
        let d = data(&mut r, &m, big);
        let (_, segs) = gen::segs(&mut r, d.len(), &m.cuts(&d, Api::Search), &[16, 32], &[64]);
        jobs.push((d, segs));
    }
    let shown = || format!("case {}: {:?}, {} bytes {:02x?}", idx, c, jobs[0].0.len(), &jobs[0].0[..jobs[0].0.len().min(32)]);
    crate::WHERE.with(|w| *w.borrow_mut() = shown());
    if threads {
        let ch = &*ch;
        let go = |d: &[u8], segs: &[usize]| crate::caught(|| Ok(drive(ch, d, segs, false)));
        let late: Vec<_> = std::thread::scope(|s| {
            let hs: Vec<_> = jobs.iter().map(|(d, segs)| s.spawn(move || go(d, segs))).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        let mut n = 0;
        for (i, l) in late.iter().enumerate() {
            let alone = go(&jobs[i].0, &jobs[i].1);
            if alone != *l {
                return Err(format!("DIFF thread {} of 3 at once: {:?}, alone: {:?}", i, l, alone));
            }
            n += alone.map_or(0, |v| edges(&v));
        }
        return Ok(n);
    }
    let (d, segs) = &jobs[0];
    if show {
        // what a build is given, and what it makes of it
        let bytes: Vec<usize> = d.iter().map(|b| *b as usize).collect();
        let text: Vec<usize> = format!("{:?}", c).bytes().map(|b| b as usize).collect();
        let given = [&text, &bytes, segs].iter().fold(0, |h, v| crate::digest::hash(h, v));
        let got = crate::caught(|| Ok(drive(&*ch, d, segs, true)));
        let (out, n) = match &got {
            Err(_) => (0, 0),
            Ok(v) => (
                v.iter().fold(1, |h, r| match r {
                    Ok(c) => crate::digest::hash(h, c),
                    Err(_) => crate::digest::hash(h, &[7]),
                }),
                edges(v),
            ),
        };
        println!("CASE {} {} {:016x} {:016x} {}", idx, ALGOS[algo], given, out, n);
        return Ok(n);
    }
    let n = edges(&drive(&*ch, d, segs, true));
    // abuse
    let mut y = ch.search();
    let mut x = ch.incr();
    let mut log = Log::default();
    for _ in 0..6 {
        let l = r.us(0, d.len());
        let a = r.us(0, d.len() - l);
        let own: Box<[u8]> = d[a..a + l].into();
        let _ = run::find(&mut *y, &own, &mut log);
        let _ = run::push(&mut *x, &own, &mut log);
    }
    if let Some(z) = y.fork() {
        z.same(&*y);
    }
    if let Some(z) = x.fork() {
        z.same(&*x);
    }
    let c2 = ch.dup();
    c2.same(&*ch);
    if idx % 7 == 0 {
        let _ = (x.debug().len(), y.debug().len(), ch.debug().len());
    }
    for (_, mut x) in ch.incrs() {
        let _ = run::push(&mut *x, d, &mut log);
    }
    for (_, mut y) in ch.searches() {
        let _ = run::find(&mut *y, d, &mut log);
    }
    Ok(n)
}

/// <seed> <from> <to> [big] [threads] [show|far]
pub fn main(a: &[&str]) -> i32 {
    let (Ok(seed), Ok(from), Ok(to)) = (a[0].parse::<u64>(), a[1].parse::<u64>(), a[2].parse::<u64>()) else {
        return 2;
    };
    let show = a.contains(&"show");
    let (big, threads) = (a.contains(&"big"), a.contains(&"threads"));
    let (mut edges, mut bad) = (0, false);
    for i in from..to {
        if a.contains(&"far") {
            edges += far(seed, i);
            continue;
        }
        match crate::caught(|| case(seed, i, big, threads, show)) {
            Ok(n) => edges += n,
            Err(e) => {
                let w = crate::WHERE.with(|w| w.borrow().clone());
                println!("FOUND {}; {}, {}", e, ALGOS[(i % 10) as usize], w);
                bad = true;
                break;
            }
        }
    }
    println!("cases {} edges {}", to - from, edges);
    bad as i32
}
