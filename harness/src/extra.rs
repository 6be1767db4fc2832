//! What needs other processes (C22, C27) or very long streams (C30).
use crate::ctx::{self, Tally};
use crate::gen::{Gen, Step, TABLES};
use crate::model::{Api, Model};
use crate::rng::Rng;
use crate::run::{self, Log};
use adapt::{BuzH, Cfg, Table32, Table64, ZpaqHow};
use std::ops::Bound;
use std::process::{Command, Stdio};

pub enum Bad {
    Violation(String),
    Broken(String),
}
pub type X = Result<Vec<(String, String)>, Bad>;

pub fn rule(id: &str) -> &'static str {
    match id {
        "C27" => "A case is a configuration, a stream and a way to hand it over; its cuts by edge search, pushes and slices are computed in every build of the library (each feature alone; all features in several optimisation levels, with and without overflow and debug checks) and compared. Non-trivial: there were edges; distinct by algorithm and cuts.",
        _ => "A case is a configuration and a stream of more than 4 GiB (one slice of fresh zero pages with a tail, or one block handed over again and again), whose edges follow from the definition; what may be discarded is watched, too. Non-trivial: at least one edge beyond 2^32 is expected; some have none at all.",
    }
}

fn digest(exe: &str, args: &[String], env: &[(&str, &str)]) -> Result<Vec<String>, Bad> {
    // a build that does not return is for C06 to judge
    let mut c = Command::new("timeout");
    c.args(["-s", "KILL", "400", exe, "digest"]).args(args).stdin(Stdio::null()).stderr(Stdio::null());
    for (k, v) in env {
        c.env(k, v);
    }
    let o = c.output().map_err(|e| Bad::Broken(format!("{}: {}", exe, e)))?;
    if !o.status.success() {
        use std::os::unix::process::ExitStatusExt;
        let code = o.status.code().filter(|c| *c > 128).map(|c| c - 128);
        return match o.status.signal().or(code) {
            Some(s) if s != 9 => Err(Bad::Violation(format!("{} {:?} crashed with signal {}", exe, args, s))),
            s => Err(Bad::Broken(format!("{} {:?}: {:?} {:?}", exe, args, s, o.status.code()))),
        };
    }
    Ok(String::from_utf8_lossy(&o.stdout).lines().map(|s| s.to_string()).collect())
}

/// Same cuts in other processes, other orders, at other addresses
pub fn processes(seed: u64, thorough: bool) -> Result<u64, String> {
    let exe = std::env::current_exe().unwrap();
    let exe = exe.to_str().unwrap().to_string();
    let n: u64 = if thorough { 6000 } else { 300 };
    let long = "x".repeat(100_000);
    let runs: Vec<(&str, Vec<(&str, &str)>)> = vec![
        ("", vec![]),
        ("reverse", vec![("PADDING", &long)]),
        ("threads", vec![("HOME", "/nonexistent"), ("LANG", "C"), ("TZ", "UTC+3")]),
        ("reverse", vec![("MALLOC_PERTURB_", "165"), ("MALLOC_ARENA_MAX", "1")]),
    ];
    let mut outs = vec![];
    std::thread::scope(|s| {
        let hs: Vec<_> = runs
            .iter()
            .map(|(how, env)| {
                let exe = &exe;
                s.spawn(move || {
                    let a: Vec<String> = vec![
                        seed.to_string(),
                        "0".into(),
                        n.to_string(),
                        "0,1,2,3,4,5,6,7,8,9".into(),
                        how.to_string(),
                    ];
                    digest(exe, &a, env)
                })
            })
            .collect();
        for h in hs {
            outs.push(h.join().unwrap());
        }
    });
    let mut first: Option<Vec<String>> = None;
    for (i, o) in outs.into_iter().enumerate() {
        let o = match o {
            Ok(o) => o,
            Err(Bad::Violation(e)) => return Err(e),
            Err(Bad::Broken(e)) => {
                eprintln!("{}", e);
                std::process::exit(3)
            }
        };
        match &first {
            None => first = Some(o),
            Some(f) => {
                if let Some(k) = (0..f.len().max(o.len())).find(|k| f.get(*k) != o.get(*k)) {
                    return Err(format!(
                        "process {} ({}) cuts otherwise: {:?} against {:?}",
                        i,
                        runs[i].0,
                        o.get(k),
                        f.get(k)
                    ));
                }
            }
        }
    }
    // the first cases of a process or a thread see no history of others
    let want: std::collections::HashSet<String> = first.unwrap_or_default().into_iter().collect();
    let (procs, each) = if thorough { (4000u64, 60u64) } else { (320, 24) };
    let next = std::sync::atomic::AtomicU64::new(0);
    let bad = std::sync::Mutex::new(None);
    let seen = std::sync::atomic::AtomicU64::new(0);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if i >= procs || bad.lock().unwrap().is_some() {
                    break;
                }
                let algos = if i % 11 == 10 { "0,1,2,3,4,5,6,7,8,9".to_string() } else { (i % 11).to_string() };
                let a: Vec<String> = vec![
                    seed.to_string(),
                    "0".into(),
                    n.to_string(),
                    algos,
                    format!("batches:{}:{}", i, if i % 2 == 0 { each } else { 1 }),
                ];
                match digest(&exe, &a, &[]) {
                    Ok(o) => {
                        seen.fetch_add(o.len() as u64, std::sync::atomic::Ordering::SeqCst);
                        if let Some(l) = o.iter().find(|l| !want.contains(*l)) {
                            *bad.lock().unwrap() = Some(Bad::Violation(format!(
                                "mon digest {}: case {:?} cuts otherwise than in a longer run",
                                a.join(" "),
                                l
                            )));
                        }
                    }
                    Err(e) => *bad.lock().unwrap() = Some(e),
                }
            });
        }
    });
    match bad.into_inner().unwrap() {
        None => {}
        Some(Bad::Violation(e)) => return Err(e),
        Some(Bad::Broken(e)) => {
            eprintln!("{}", e);
            std::process::exit(3)
        }
    }
    Ok(n * 10 * 4 + seen.into_inner())
}

/// Threads that do nothing but make and use small instances of a few configurations at once, and
/// what each gives when it is alone.
pub fn races(seed: u64, thorough: bool) -> Result<u64, String> {
    let rounds = if thorough { 400 } else { 40u64 };
    let iters = if thorough { 4000 } else { 2500u64 };
    let total = std::sync::atomic::AtomicU64::new(0);
    for round in 0..rounds {
        let algo = (round % 10) as usize;
        let mut r = Rng::new(&[0x4ace5, seed, round]);
        let mut pool = vec![];
        while pool.len() < 6 {
            let g = [crate::gen::Regime::Small, crate::gen::Regime::Extreme][r.us(0, 1)];
            let mut cfg = crate::gen::cfg(&mut r, &[], algo, g);
            match &mut cfg {
                Cfg::Bup { window: Some(w) } => *w = *w % 300 + 1,
                Cfg::Buz { k, .. } => *k = *k % 300 + 1,
                Cfg::Gzip { p: Some((w, _)) } => *w = *w % 300 + 1,
                Cfg::Zstd { section } => *section = Some(1 << r.range(20, 24)),
                _ => {}
            }
            let m = Model::new(&cfg);
            let mut d = Gen { r: &mut r, m: &m, dict: &[] }.data(200);
            d.truncate(500);
            pool.push((cfg, d));
        }
        let get = |i: usize, full: bool| -> Result<(Vec<usize>, Vec<usize>, String), String> {
            let (cfg, d) = &pool[i];
            let mut log = Log::default();
            let ch = adapt::build(cfg, &TABLES);
            let a = run::incr(&mut *ch.incr(), d, &[d.len()], &mut log)?;
            let b = run::search(&mut *ch.search(), d, &[d.len()], false, &mut log)?;
            run::arm(1 << 20);
            Ok((a, b, if full { ch.debug() } else { String::new() }))
        };
        let want: Vec<_> = (0..pool.len()).map(|i| get(i, true)).collect::<Result<_, _>>()?;
        let cheap = want.iter().all(|w| w.2.len() < 400);
        let bad = std::sync::Mutex::new(None::<String>);
        let start = std::sync::Barrier::new(6);
        std::thread::scope(|s| {
            for t in 0..6u64 {
                let (get, want, bad, start, total, pool) = (&get, &want, &bad, &start, &total, &pool);
                s.spawn(move || {
                    let mut r = Rng::new(&[0x4ace, seed, round, t]);
                    start.wait();
                    for k in 0..iters {
                        let i = r.us(0, pool.len() - 1);
                        let full = cheap || k % 64 == 0;
                        let e = match crate::caught(|| get(i, full)) {
                            Err(e) => Some(e),
                            Ok(g) if g.0 != want[i].0 => Some(format!("push: {}", run::diff(&g.0, &want[i].0))),
                            Ok(g) if g.1 != want[i].1 => Some(format!("search: {}", run::diff(&g.1, &want[i].1))),
                            Ok(g) if full && g.2 != want[i].2 => Some("the instance looks otherwise".to_string()),
                            _ => None,
                        };
                        if let Some(e) = e {
                            *bad.lock().unwrap() = Some(format!(
                                "one of 6 threads that make and use instances, against alone: {}; {:?}, bytes {:02x?}",
                                e, pool[i].0, pool[i].1
                            ));
                        }
                        if k % 64 == 0 && bad.lock().unwrap().is_some() {
                            break;
                        }
                    }
                    total.fetch_add(iters, std::sync::atomic::Ordering::SeqCst);
                });
            }
        });
        if let Some(e) = bad.into_inner().unwrap() {
            return Err(e);
        }
    }
    Ok(total.into_inner())
}

/// Some hundred MiB without an edge at once, on a thread with a small stack
pub fn deep(seed: u64, thorough: bool) -> Result<u64, String> {
    let n = if thorough { 1usize << 30 } else { 192 << 20 };
    let cfgs: Vec<Cfg> = vec![
        Cfg::Bup { window: None },
        Cfg::Buz { k: 67, mask: 0xffff_ffff, max: u64::MAX, hash: BuzH::Table(Table32::Go) },
        Cfg::Gear { log2: Some(20) },
        Cfg::FastCdc { p: Some((Table64::Std, 100, 1 << 40, u64::MAX)) },
        Cfg::Gzip { p: Some((3000, 4097)) },
        Cfg::Pigz { bits: Some(31) },
        Cfg::Zpaq(ZpaqHow::AvgRange(32, Bound::Included(1 << 40), Bound::Unbounded)),
        Cfg::Zstd { section: None },
        Cfg::Mii { w: Some(4) },
        Cfg::Ram { w: 1 << 40 },
    ];
    let next = std::sync::atomic::AtomicUsize::new(0);
    let bad = std::sync::Mutex::new(None::<String>);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                let Some(cfg) = cfgs.get(i) else { break };
                let b = match no_edges(cfg, 20_000) {
                    Some(b) => b,
                    None => continue,
                };
                let Ok(big) = Big::new(b, n + (seed % 1000) as usize, &[]) else { continue };
                let h = std::thread::Builder::new().stack_size(96 << 10).spawn_scoped(s, move || {
                    ctx::desc(format!("{:?}, {} bytes {} at once, on a stack of 96 KiB", cfg, n, b));
                    let mut log = Log::default();
                    let ch = adapt::build(cfg, &TABLES);
                    crate::caught(|| {
                        let d = big.get();
                        run::incr(&mut *ch.incr(), d, &[d.len()], &mut log)?;
                        run::search(&mut *ch.search(), d, &[d.len()], false, &mut log)?;
                        run::iter(ch.incr(), d, false, &mut log)
                    })
                    .map_err(|e| format!("{:?}: {}", cfg, e))
                });
                if let Ok(Err(e)) = h.map(|h| h.join().unwrap_or(Err("lost".into()))) {
                    *bad.lock().unwrap() = Some(e);
                }
            });
        }
    });
    match bad.into_inner().unwrap() {
        Some(e) => Err(e),
        None => Ok(n as u64 * 10),
    }
}

/// The builds are in VERIF_BUILDS: lines "<name> <algorithms> <path>"
pub fn c27(seed: u64, thorough: bool) -> X {
    let list = std::env::var("VERIF_BUILDS").map_err(|_| Bad::Broken("no VERIF_BUILDS".into()))?;
    let builds: Vec<(String, String, String)> = list
        .lines()
        .filter_map(|l| {
            let mut w = l.split(' ');
            Some((w.next()?.into(), w.next()?.into(), w.next()?.into()))
        })
        .collect();
    if builds.len() < 12 {
        return Err(Bad::Broken(format!("{} builds", builds.len())));
    }
    let (batches, per) = if thorough { (80u64, 250u64) } else { (8, 150) };
    let mut t = Tally::default();
    for (n, _, _) in &builds {
        t.samples.truncate(5);
        t.ev.insert(format!("cases in build {}", n), 0);
    }
    let next = std::sync::atomic::AtomicUsize::new(0);
    let jobs: Vec<(u64, usize)> = (0..batches).flat_map(|b| (0..builds.len()).map(move |i| (b, i))).collect();
    let outs = std::sync::Mutex::new(vec![]);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let k = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                let Some((b, i)) = jobs.get(k) else { break };
                let a: Vec<String> = vec![
                    seed.to_string(),
                    (b * per).to_string(),
                    ((b + 1) * per).to_string(),
                    builds[*i].1.clone(),
                ];
                let o = digest(&builds[*i].2, &a, &[]);
                outs.lock().unwrap().push((*b, *i, o));
            });
        }
    });
    let mut outs = outs.into_inner().unwrap();
    outs.sort_by_key(|o| (o.0, o.1));
    // by case: what the first build said
    let mut want: std::collections::HashMap<String, (String, String)> = Default::default();
    for (_, i, o) in outs {
        let name = &builds[i].0;
        for l in o? {
            let w: Vec<&str> = l.split(' ').collect();
            let (key, val) = (format!("{} {}", w[0], w[1]), format!("{} {}", w[2], w[3]));
            *t.ev.get_mut(&format!("cases in build {}", name)).unwrap() += 1;
            t.evaluations += 1;
            if w[3] != "0" {
                t.nontrivial.insert(crate::rng::mix(u64::from_str_radix(w[2], 16).unwrap_or(0) ^ w[1].len() as u64));
                if t.samples.len() < 4 {
                    t.samples.push(format!("seed {} case {} cuts to {} in {}", seed, key, val, name));
                }
            }
            match want.get(&key) {
                None => {
                    want.insert(key, (val, name.clone()));
                }
                Some((v, n)) => {
                    if *v != val {
                        ctx::desc(format!("digest {} case {}", seed, key));
                        ctx::merge(t);
                        return Err(Bad::Violation(format!(
                            "case {} of seed {}: build {} gives {} and build {} gives {}",
                            key, seed, name, val, n, v
                        )));
                    }
                }
            }
        }
    }
    t.ev.insert("builds compared".into(), builds.len() as u64);
    t.situations.extend(0..builds.len() as u64);
    ctx::merge(t);
    Ok(vec![])
}


// ---------------------------------------------------------------------------------------- C30

extern "C" {
    fn memfd_create(name: *const u8, flags: u32) -> i32;
    fn ftruncate(fd: i32, n: i64) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(a: *mut u8, n: usize) -> i32;
    fn close(fd: i32) -> i32;
}
const BLOCK: usize = 16 << 20;

/// A slice of `n` bytes `b` with `tail` behind them: one file of a block, mapped again and again.
struct Big {
    at: *mut u8,
    all: usize,
    from: usize,
    len: usize,
}
impl Big {
    fn new(b: u8, n: usize, tail: &[u8]) -> Result<Big, String> {
        let k = n.div_ceil(BLOCK);
        let t = tail.len().div_ceil(BLOCK) * BLOCK;
        let all = k * BLOCK + t;
        unsafe {
            let fd = memfd_create(b"m\0".as_ptr(), 0);
            if fd < 0 || ftruncate(fd, BLOCK as i64) != 0 {
                return Err("memfd_create".into());
            }
            // PROT_NONE, private, anonymous, no reserve
            let at = mmap(std::ptr::null_mut(), all, 0, 0x2 | 0x20 | 0x4000, -1, 0);
            if at as isize == -1 {
                return Err("mmap".into());
            }
            for i in 0..k {
                if mmap(at.add(i * BLOCK), BLOCK, 3, 0x1 | 0x10, fd, 0) as isize == -1 {
                    return Err("mmap of a block".into());
                }
            }
            if t > 0 && mmap(at.add(k * BLOCK), t, 3, 0x2 | 0x20 | 0x10, -1, 0) as isize == -1 {
                return Err("mmap of the tail".into());
            }
            close(fd);
            std::ptr::write_bytes(at, b, BLOCK);
            std::ptr::copy_nonoverlapping(tail.as_ptr(), at.add(k * BLOCK), tail.len());
            Ok(Big { at, all, from: k * BLOCK - n, len: n + tail.len() })
        }
    }
    fn get(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.at.add(self.from), self.len) }
    }
}
unsafe impl Send for Big {}
impl Drop for Big {
    fn drop(&mut self) {
        unsafe {
            munmap(self.at, self.all);
        }
    }
}

/// A chunk that ends at its largest size only: ZPAQ with data that avoids all its hits.
fn avoiding(cfg: &Cfg, api: Api, log: &mut Log) -> Result<(), String> {
    let m = Model::new(cfg);
    let Model::Zpaq { avg, hi, .. } = m.clone() else { return Err("!zpaq".into()) };
    let l = match hi {
        Bound::Included(x) => x + 1,
        Bound::Excluded(x) => x,
        Bound::Unbounded => return Err("!bound".into()),
    };
    ctx::desc(format!("{:?}: {} bytes that avoid edges, by {:?}", cfg, l, api));
    if l < 2 || !m.must_end(l) || m.must_end(l - 1) {
        return Err("!the limit".into());
    }
    let ch = adapt::build(cfg, &TABLES);
    let (mut x, mut y) = (ch.incr(), ch.search());
    let low = 1u64 << (32 - avg);
    let (mut h, mut c1, mut o1) = (0u32, 0u8, [0u8; 256]);
    let mut block = vec![0u8; (4 << 20) + 13];
    let mut at = 0u64;
    while at < l + 100 {
        for v in block.iter_mut() {
            let p = o1[c1 as usize];
            let mut b = 0u8;
            loop {
                let f = if p == b { 314_159_265 } else { 271_828_182 };
                let n = h.wrapping_add(b as u32 + 1).wrapping_mul(f);
                if n as u64 >= low {
                    h = n;
                    break;
                }
                b += 1;
            }
            *v = b;
            o1[c1 as usize] = b;
            c1 = b;
        }
        let e = if api == Api::Incr {
            run::push(&mut *x, &block, log)?
        } else {
            let (e, d) = run::find(&mut *y, &block, log)?;
            if e.is_none() && d != block.len() {
                return Err(format!("no edge in {} bytes, but only {} may be discarded", block.len(), d));
            }
            e
        };
        log.bytes += block.len() as u64;
        if let Some(e) = e {
            if at + e as u64 != l {
                return Err(format!("the chunk ends after {} bytes, should after {}", at + e as u64, l));
            }
            return Ok(());
        }
        at += block.len() as u64;
    }
    Err(format!("the chunk has not ended after {} bytes, should after {}", at, l))
}

struct Job {
    cfg: Cfg,
    b: u8,
    n: usize,
    tail: Vec<u8>,
    /// by api
    want: [Vec<usize>; 2],
    mode: usize,
}

pub fn no_edges(cfg: &Cfg, p: usize) -> Option<u8> {
    let m = Model::new(cfg);
    (0..=255u8).find(|b| {
        let d = vec![*b; p];
        m.cuts(&d, Api::Search).is_empty() && m.cuts(&d, Api::Incr).is_empty()
    })
}

/// The edges in a tail behind `n` bytes `b` without edges, when `m` is the definition with all
/// limits smaller by `n - p`
fn shifted(real: &Cfg, m: &Cfg, b: u8, p: usize, n: usize, tail: &[u8], api: Api) -> Vec<usize> {
    let mut d = vec![b; p];
    d.extend_from_slice(tail);
    let Some((e, _)) = Model::new(m).first(&d, api) else { return vec![] };
    let mut v = vec![e + n - p];
    let rest = Model::new(real).cuts(&d[e..], api);
    v.extend(rest.iter().map(|x| x + e + n - p));
    v
}

fn jobs(seed: u64, thorough: bool) -> Result<Vec<Job>, String> {
    let mut r = Rng::new(&[0xc30, seed]);
    let mut out: Vec<Job> = vec![];
    const G: usize = 1 << 32;
    let mut add = |cfg: Cfg, b: u8, n: usize, tail: Vec<u8>, s: Vec<usize>, i: Vec<usize>| {
        out.push(Job { cfg, b, n, tail, want: [s, i], mode: 0 });
    };
    // content edges behind a chunk, or a window's history, of more than 4 GiB
    let windowed: Vec<Cfg> = vec![
        Cfg::Bup { window: None },
        Cfg::Bup { window: Some(1000) },
        Cfg::Buz { k: 67, mask: 0xfff, max: u64::MAX, hash: BuzH::Salt(3, Table32::Go) },
        Cfg::Buz { k: 33, mask: 0x3ff, max: u64::MAX, hash: BuzH::Table(Table32::Go) },
        Cfg::Gear { log2: Some(10) },
        Cfg::Gzip { p: Some((3000, 4097)) },
        Cfg::Gzip { p: Some((5, 251)) },
        Cfg::Pigz { bits: None },
        Cfg::Pigz { bits: Some(31) },
        Cfg::Zstd { section: None },
        Cfg::Mii { w: Some(4) },
    ];
    for cfg in windowed {
        let m = Model::new(&cfg);
        let p = 2 * m.window().unwrap_or(1) + 4096;
        let b = no_edges(&cfg, p);
        let Some(b) = b else { return Err(format!("no filler for {:?}", cfg)) };
        let m = Model::new(&cfg);
        let n = G + r.us(1, 5000);
        let mut tail = r.bytes(3000);
        let mut g = Gen { r: &mut r, m: &m, dict: &[] };
        let mut st = Step::new(&m);
        for l in [400usize, 33, 9000] {
            g.chunk(&mut st, l, &mut tail);
        }
        let mut d = vec![b; p];
        d.extend_from_slice(&tail);
        let w: Vec<usize> = m.cuts(&d, Api::Search).iter().map(|x| x + n - p).collect();
        if w.is_empty() {
            return Err(format!("no edges planned for {:?}", cfg));
        }
        // and without any edge
        add(cfg.clone(), b, n, vec![], vec![], vec![]);
        add(cfg, b, n, tail, w.clone(), w);
    }
    // limits of more than 4 GiB
    let p = 20_000usize;
    for (t, min, normal, max) in [
        (Table64::Std, 17u64, 700u64, 9000u64),
        (Table64::Made(4, 0), 40, 45, 90),
        (Table64::Made(5, 1), 400, 900, 901),
        (Table64::Made(1, 0), 300, 500, 2222),
    ] {
        let n = G + r.us(1, 5000);
        let d = n as u64;
        let cfg = Cfg::FastCdc { p: Some((t, d + min, d + normal, d + max)) };
        let tail = r.bytes(12_000);
        let q = p as u64;
        let m = Cfg::FastCdc { p: Some((t, q + min, q + normal, q + max)) };
        let s = shifted(&cfg, &m, 0, p, n, &tail, Api::Search);
        let i = shifted(&cfg, &m, 0, p, n, &tail, Api::Incr);
        add(cfg, 0, n, tail, s, i);
    }
    {
        // minimum small, the others not: 4 GiB are examined
        let n = G + r.us(1, 5000);
        let b = no_edges(&Cfg::FastCdc { p: Some((Table64::Std, 100, 4000, u64::MAX)) }, p)
            .ok_or("no filler for fastcdc")?;
        for (normal, max) in [(n as u64 + 3000, n as u64 + 6000), (n as u64 + 100, n as u64 + 200)] {
            let cfg = Cfg::FastCdc { p: Some((Table64::Std, 100, normal, max)) };
            let tail = r.bytes(12_000);
            let s = n as u64 - p as u64;
            let m = Cfg::FastCdc { p: Some((Table64::Std, 100, normal - s, max - s)) };
            let x = shifted(&cfg, &m, b, p, n, &tail, Api::Search);
            let y = shifted(&cfg, &m, b, p, n, &tail, Api::Incr);
            add(cfg, b, n, tail, x, y);
        }
    }
    for w in [3u64, 900] {
        let n = G + r.us(1, 5000);
        let mut tail = r.bytes(6000);
        for x in tail.iter_mut().take(w as usize + 30) {
            *x = (*x).min(200);
        }
        let (cfg, m) = (Cfg::Ram { w: n as u64 + w }, Cfg::Ram { w: p as u64 + w });
        let s = shifted(&cfg, &m, 0, p, n, &tail, Api::Search);
        add(cfg, 0, n, tail, s.clone(), s);
    }
    // twice as far, where more bits of a limit are needed
    {
        let n = 2 * G + r.us(1, 5000);
        let mut tail = r.bytes(6000);
        for x in tail.iter_mut().take(400) {
            *x = (*x).min(200);
        }
        let (cfg, m) = (Cfg::Ram { w: n as u64 + 300 }, Cfg::Ram { w: p as u64 + 300 });
        let s = shifted(&cfg, &m, 0, p, n, &tail, Api::Search);
        add(cfg, 0, n, tail, s.clone(), s);
        let n = 2 * G + r.us(1, 5000);
        let d = n as u64;
        let cfg = Cfg::FastCdc { p: Some((Table64::Std, d - 9000, d + 700, d + 3000)) };
        let tail = r.bytes(12_000);
        let q = p as u64;
        let m = Cfg::FastCdc { p: Some((Table64::Std, q - 9000, q + 700, q + 3000)) };
        let s = shifted(&cfg, &m, 0, p, n, &tail, Api::Search);
        let i = shifted(&cfg, &m, 0, p, n, &tail, Api::Incr);
        add(cfg, 0, n, tail, s, i);
    }
    for max in [5u64, 1500] {
        let n = G + r.us(1, 5000);
        let cfg = |m: u64| Cfg::Buz { k: 64, mask: 0xffff_ffff, max: m, hash: BuzH::Table(Table32::BorgBase) };
        let b = no_edges(&cfg(u64::MAX), p).ok_or("no filler for buzhash")?;
        let tail = r.bytes(4000);
        let s = shifted(&cfg(n as u64 + max), &cfg(p as u64 + max), b, p, n, &tail, Api::Search);
        add(cfg(n as u64 + max), b, n, tail, s.clone(), s);
    }
    for (avg, lo, hi) in [(4u8, 100u64, 5000u64), (32, 0, 77), (2, 3000, u64::MAX), (32, 10, 4000)] {
        let n = G + r.us(1, 5000);
        let tail = r.bytes(9000);
        let d = n as u64;
        let (lo, hi) = (
            Bound::Included(d + lo),
            if hi == u64::MAX { Bound::Unbounded } else { Bound::Excluded(d + hi) },
        );
        // n predicted zeros: h -> (h + 1) * c, n times
        let (mut a, mut k) = (1u32, 0u32);
        let (mut a2, mut k2) = (314_159_265u32, 314_159_265u32);
        let mut e = d;
        while e > 0 {
            if e & 1 == 1 {
                (a, k) = (a.wrapping_mul(a2), k.wrapping_mul(a2).wrapping_add(k2));
            }
            (a2, k2) = (a2.wrapping_mul(a2), k2.wrapping_mul(a2).wrapping_add(k2));
            e >>= 1;
        }
        let _ = a;
        let mut h = k;
        let (mut c1, mut o1) = (0u8, [0u8; 256]);
        let mut want = vec![];
        let m = Model::Zpaq { avg: avg as u32, lo, hi };
        for (i, c) in tail.iter().enumerate() {
            let f = if o1[c1 as usize] == *c { 314_159_265 } else { 271_828_182 };
            h = h.wrapping_add(*c as u32 + 1).wrapping_mul(f);
            o1[c1 as usize] = *c;
            c1 = *c;
            let len = d + i as u64 + 1;
            if m.must_end(len) || ((h as u64) < 1 << (32 - avg) && m.may_end(len)) {
                want = vec![n + i + 1];
                break;
            }
        }
        if want.is_empty() {
            return Err("no zpaq edge planned".into());
        }
        add(Cfg::Zpaq(ZpaqHow::AvgRange(avg, lo, hi)), 0, n, tail, want.clone(), want);
    }
    // sums of more than 32 bits
    for w in [17usize << 20, 20 << 20] {
        let n = w + r.us(1, 5000);
        let m = 255 * w as u64 - 255 * 20_000;
        let cfg = Cfg::Gzip { p: Some((w, m)) };
        // all 255: the sum is a multiple of m after w - 20000 bytes
        let k = w - 20_000;
        let tail = vec![255; 100];
        let all = n + tail.len();
        let want: Vec<usize> = (1..=all / k).map(|x| x * k).collect();
        add(cfg, 255, n, tail, want.clone(), want);
    }
    if thorough {
        // a window of more than 4 GiB: 1 sums up to the modulus
        let w = G + 3;
        let cfg = Cfg::Gzip { p: Some((w, G as u64 + 2)) };
        add(cfg, 1, G + 900, vec![], vec![G + 2], vec![G + 2]);
    }
    // windows of more than 4 GiB, in one slice; the filler is such that what it adds repeats, so
    // that a window that is smaller by a multiple of W, but larger than the tail, does the same
    const W: usize = 10 << 16;
    for i in 0..3usize {
        // a window of what is over would be full of the tail before the edge
        let over = r.us(1, 200);
        let n = G + over + r.us(1, 3000);
        let tail = r.bytes(600_000);
        let (cfg, b, small, p) = match i {
            0 => {
                (Cfg::Bup { window: Some(G + over) }, 0, Cfg::Bup { window: Some(W + over) }, n - G + W)
            }
            1 => {
                let buz = |k| Cfg::Buz { k, mask: 0x7fff, max: u64::MAX, hash: BuzH::Table(Table32::Go) };
                let (real, m) = (buz(G + over), buz(W + over));
                let p = n - G + W;
                let b = no_edges(&m, p).ok_or("no filler for a large window")?;
                (real, b, m, p)
            }
            _ => {
                // ones, and larger bytes behind them
                let k = r.us(100, 3000);
                let more: usize = tail[..k].iter().map(|b| *b as usize).sum::<usize>() - k;
                let m = |w: usize| Cfg::Gzip { p: Some((w, (w + more) as u64)) };
                (m(G + over), 1, m(W + over), n - G + W)
            }
        };
        let want = shifted(&cfg, &small, b, p, n, &tail, Api::Search);
        if want.is_empty() || want[0] < n + over {
            return Err(format!("no edges planned behind a window of 4 GiB for {:?}", cfg));
        }
        if thorough || i as u64 == seed % 3 || i == 1 {
            add(cfg, b, n, tail, want, vec![]);
        }
    }
    // the limits that other constructors derive
    let big = r.range(1 << 32, (1 << 32) + (1 << 30));
    let all = [
        ZpaqHow::Pow2(30),
        ZpaqHow::Max(big),
        ZpaqHow::Range(Bound::Included(1000), Bound::Excluded(big)),
        ZpaqHow::AvgRange(31, Bound::Excluded(7), Bound::Included(big)),
    ];
    for (i, how) in all.into_iter().enumerate() {
        if thorough || i == 0 || i as u64 % 3 == seed % 3 {
            add(Cfg::Zpaq(how), 0, 0, vec![], vec![], vec![]);
        }
    }
    let mut v = vec![];
    for (i, j) in out.into_iter().enumerate() {
        let modes: Vec<usize> = if j.want[0].is_empty() {
            // what may be discarded
            if matches!(j.cfg, Cfg::Zpaq(_)) {
                vec![6 + (i + seed as usize) % 2]
            } else if thorough || (i as u64 / 2 + seed) % 2 == 0 {
                vec![0]
            } else {
                vec![]
            }
        } else if j.want[1].is_empty() {
            vec![0]
        } else if thorough {
            vec![0, 1, 2, 3, 4 + i % 2]
        } else if (i as u64 / 2 + seed) % 2 == 0 {
            vec![0, 3]
        } else {
            vec![1, 2]
        };
        for mode in modes {
            v.push(Job { cfg: j.cfg.clone(), b: j.b, n: j.n, tail: j.tail.clone(), want: j.want.clone(), mode });
        }
    }
    if !thorough {
        // those that are fast to go through
        let cheap: Vec<usize> = (0..v.len())
            .filter(|i| !v[*i].want[1].is_empty())
            .filter(|i| matches!(v[*i].cfg, Cfg::Mii { .. } | Cfg::Ram { .. } | Cfg::Gear { .. } | Cfg::FastCdc { .. }))
            .collect();
        let edges: Vec<usize> = (0..v.len()).filter(|i| !v[*i].want[1].is_empty()).collect();
        let i = edges[seed as usize % edges.len()];
        for (i, mode) in [(i, 4), (cheap[seed as usize % cheap.len()], 5), (cheap[(seed as usize + 3) % cheap.len()], 4)] {
            let j = &v[i];
            let k = Job { cfg: j.cfg.clone(), b: j.b, n: j.n, tail: j.tail.clone(), want: j.want.clone(), mode };
            v.push(k);
        }
    }
    Ok(v)
}

const MODES: [&str; 8] = [
    "edge search in one slice",
    "push of one slice",
    "edge search in blocks",
    "push of blocks",
    "slices of one slice",
    "strict slices of one slice",
    "push of blocks that avoid edges",
    "edge search in blocks that avoid edges",
];

fn job(j: &Job, log: &mut Log) -> Result<(), String> {
    if j.mode >= 6 {
        return avoiding(&j.cfg, if j.mode == 6 { Api::Incr } else { Api::Search }, log);
    }
    ctx::desc(format!("{:?}: {} bytes {}, then {} others, {}", j.cfg, j.n, j.b, j.tail.len(), MODES[j.mode]));
    let ch = adapt::build(&j.cfg, &TABLES);
    let all = j.n + j.tail.len();
    let mut cuts = vec![];
    match j.mode {
        0 | 1 | 4 | 5 => {
            let big = Big::new(j.b, j.n, &j.tail).map_err(|e| format!("!{}", e))?;
            let d = big.get();
            match j.mode {
                0 => {
                    let mut g = run::Searcher::new();
                    g.look_back = Some(Model::new(&j.cfg).look_back());
                    g.grow(&mut *ch.search(), d, all, false, log)?;
                    cuts = g.cuts;
                }
                1 => cuts = run::incr(&mut *ch.incr(), d, &[all], log)?,
                m => {
                    cuts = run::iter(ch.incr(), d, m == 5, log)?;
                    if m == 4 && j.want[1].last() != Some(&all) {
                        cuts.pop();
                    }
                }
            }
        }
        m => {
            // blocks of odd lengths
            let block = vec![j.b; (4 << 20) + 13];
            let mut at = 0usize;
            let (mut x, mut y) = (ch.incr(), ch.search());
            // for the search: what has to be kept
            let mut keep: Vec<u8> = vec![];
            while at < all {
                let own;
                let d: &[u8] = if at < j.n {
                    &block[..block.len().min(j.n - at)]
                } else {
                    own = &j.tail[at - j.n..][..(all - at).min(777)];
                    own
                };
                if m == 3 {
                    let mut pos = at;
                    run::feed(&mut *x, d, &mut pos, 0, &mut cuts, log)?;
                } else {
                    let joined;
                    let mut v: &[u8] = d;
                    let mut off = at;
                    if !keep.is_empty() {
                        off -= keep.len();
                        keep.extend_from_slice(d);
                        joined = std::mem::take(&mut keep);
                        v = &joined;
                    }
                    loop {
                        let (e, disc) = run::find(&mut *y, v, log)?;
                        if let Some(e) = e {
                            cuts.push(off + e);
                        }
                        v = &v[disc..];
                        off += disc;
                        if e.is_none() {
                            break;
                        }
                    }
                    keep = v.to_vec();
                }
                at += d.len();
            }
        }
    }
    log.bytes = all as u64;
    let want = &j.want[(j.mode != 0 && j.mode != 2) as usize];
    // FastCDC by push: behind the last planned edge the other limits are not reached again
    if cuts != *want {
        return Err(format!("{}: {}", MODES[j.mode], run::diff(&cuts, want)));
    }
    Ok(())
}

pub fn c30(seed: u64, thorough: bool) -> X {
    let js = jobs(seed, thorough).map_err(Bad::Broken)?;
    let next = std::sync::atomic::AtomicUsize::new(0);
    let total = std::sync::Mutex::new((Tally::default(), None::<(String, String)>));
    let t0 = std::time::Instant::now();
    std::thread::spawn(|| {
        // here nothing counts steps
        std::thread::sleep(std::time::Duration::from_secs(860));
        ctx::fatal("a stream of some GiB did not end within minutes");
    });
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let k = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                let Some(j) = js.get(k) else { break };
                if total.lock().unwrap().1.is_some() || (thorough && t0.elapsed().as_secs() > 700) {
                    break;
                }
                let mut log = Log::default();
                let r = crate::caught(|| job(j, &mut log));
                let d = ctx::get_desc();
                if std::env::var("VERIF_TIMES").is_ok() {
                    eprintln!("{:.1} {}", t0.elapsed().as_secs_f64(), d);
                }
                let mut g = total.lock().unwrap();
                let t = &mut g.0;
                t.evaluations += 1;
                if !j.want[0].is_empty() {
                    t.nontrivial.insert(crate::digest::hash(ctx::hash_bytes(d.as_bytes()), &j.want[0]));
                }
                *t.ev.entry(MODES[j.mode].into()).or_insert(0) += 1;
                *t.ev.entry("bytes handed over".into()).or_insert(0) += log.bytes;
                *t.ev.entry("calls into the library".into()).or_insert(0) += log.calls;
                *t.ev.entry("edges as expected".into()).or_insert(0) += j.want[0].len() as u64;
                if t.samples.len() < 6 {
                    t.samples.push(format!("{}; edges {:?}", d, &j.want[0][..j.want[0].len().min(4)]));
                }
                if let Err(e) = r {
                    g.1 = Some((d, e));
                }
            });
        }
    });
    let (t, bad) = total.into_inner().unwrap();
    ctx::merge(t);
    match bad {
        None => Ok(vec![]),
        Some((_, e)) if e.starts_with('!') => Err(Bad::Broken(e)),
        Some((d, e)) => {
            ctx::desc(d);
            Err(Bad::Violation(e))
        }
    }
}
