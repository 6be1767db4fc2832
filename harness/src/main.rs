//! mon <ID>: runs the monitors of one property over generated workloads.
mod alloc;
mod ctx;
mod digest;
mod extra;
mod gen;
mod model;
mod props;
mod rng;
mod run;
mod tables;
mod zpool;

use ctx::{Ctx, Tally, R};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

/// A panic becomes an error.
pub fn caught<T>(f: impl FnOnce() -> R<T>) -> R<T> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => {
            let (m, l) = ctx::PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            Err(format!("panic at {}: {}", l, m))
        }
    }
}

fn hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = ctx::PANIC.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = Some((m, l))
            }
        });
    }));
    probe::set_handler(|| {
        ctx::fatal("the library does not return: its work is out of proportion to its input")
    });
}

struct Plan {
    f: fn(&mut Ctx) -> R,
    quick: u64,
    thorough: u64,
    rule: &'static str,
}

fn plan(id: &str) -> Option<Plan> {
    use props::*;
    let p = |f: fn(&mut Ctx) -> R, quick: u64, thorough: u64, rule: &'static str| {
        Some(Plan { f, quick, thorough, rule })
    };
    const STREAM: &str = "A case is a configuration, a stream made for it (chunks of chosen lengths with planted edges, fillers, repeats, degenerate data) and a way to hand it over. Non-trivial: at least one edge was observed; distinct by configuration, data, edges and hand-over.";
    match id {
        "C01" => p(c01, 75_000, 1_500_000, "A case is a slice iterator over a library chunker (fresh or pre-fed) or a scripted user chunker, driven by a random sequence of iterator methods, with every slice's address and length watched. Non-trivial: at least one edge; distinct by configuration, data, edges and hand-over."),
        "C02" => p(c02, 60_000, 1_200_000, STREAM),
        "C03" => p(c03, 60_000, 1_200_000, STREAM),
        "C04" => p(c04, 60_000, 1_000_000, STREAM),
        "C05" => p(c05, 40_000, 1_200_000, STREAM),
        "C06" => p(c06, 40_000, 1_200_000, STREAM),
        "C07" => p(c07, 120_000, 2_000_000, "A case is a search state given up to 60 unrelated slices, moved between configurations, then used properly. Non-trivial: an edge was reported during the abuse; distinct by data and number of calls."),
        "C08" => p(c08, 80_000, 1_200_000, STREAM),
        "C09" => p(c09, 80_000, 1_200_000, STREAM),
        "C10" => p(c10, 60_000, 1_200_000, STREAM),
        "C11" => p(c11, 80_000, 1_200_000, STREAM),
        "C12" => p(c12, 60_000, 1_200_000, STREAM),
        "C13" => p(c13, 80_000, 1_200_000, STREAM),
        "C14" => p(c14, 60_000, 1_200_000, STREAM),
        "C15" => p(c15, 80_000, 1_200_000, STREAM),
        "C16" => p(c16, 80_000, 1_200_000, STREAM),
        "C17" => p(c17, 40_000, 1_200_000, STREAM),
        "C18" => p(c18, 80_000, 1_200_000, STREAM),
        "C19" => p(c19, 80_000, 1_200_000, STREAM),
        "C20" => p(c20, 80_000, 1_200_000, STREAM),
        "C21" => p(c21, 60_000, 1_000_000, STREAM),
        "C22" => p(c22, 8_000, 240_000, "A case is two to five streams over shared or different configurations, driven in a random order of turns on one thread, or four threads at once over one shared configuration. Non-trivial: distinct orders of turns, and thread groups with edges."),
        "C23" => p(c23, 40_000, 1_000_000, STREAM),
        "C24" => p(c24, 30_000, 500_000, STREAM),
        "C25" => p(c25, 80_000, 1_200_000, STREAM),
        "C26" => p(c26, 40_000, 500_000, STREAM),
        "C28" => p(c28, 2_000, 16_000, "A case is a batch of bounds and values judged through all 15 kinds of range. Non-trivial: distinct (bound, bound, value) triples of the generated batches."),
        "C29" => p(c29, 104, 936, "A case is a configuration and a long random stream, of which the mean chunk length is compared with the expectation. Each is non-trivial (at least 8 chunks are required)."),
        _ => None,
    }
}

fn prop_no(id: &str) -> u64 {
    id.bytes().fold(0, |h, b| rng::mix(h ^ b as u64))
}

/// What the library compares with becomes input for the generators.
fn calibrate() -> &'static [u64] {
    probe::dict_record(true);
    for algo in 0..10 {
        for i in 0..40u64 {
            let mut r = rng::Rng::new(&[0xca11, algo as u64, i]);
            let g = [gen::Regime::Usual, gen::Regime::Extreme, gen::Regime::Small][i as usize % 3];
            let cfg = gen::cfg(&mut r, &[], algo, g);
            let _ = caught(|| {
                let m = model::Model::new(&cfg);
                run::arm(1 << 20);
                let ch = adapt::build(&cfg, &gen::TABLES);
                let d = gen::Gen { r: &mut r, m: &m, dict: &[] }.data(3000);
                let mut log = run::Log::default();
                run::incr(&mut *ch.incr(), &d, &[d.len() / 2, d.len() - d.len() / 2], &mut log)?;
                run::search(&mut *ch.search(), &d, &[d.len() / 2, d.len() - d.len() / 2], false, &mut log)
            });
        }
    }
    probe::dict_record(false);
    let mut v = probe::dict();
    // a change that compares with data must not fill it with noise
    v.truncate(1500);
    Box::leak(v.into_boxed_slice())
}

fn one(p: &Plan, id: &str, idx: u64, seed: u64, thorough: bool, dict: &'static [u64], t: Tally) -> (R, Tally) {
    let mut c =
        Ctx { rng: rng::Rng::new(&[seed, prop_no(id), idx]), idx, seed, thorough, dict, t };
    ctx::set_idx(idx);
    ctx::desc(String::new());
    alloc::set_cap(3 << 30);
    // the ones that measure memory and steps are left alone
    run::set_reuse(!matches!(id, "C24" | "C25" | "C26" | "C29") && rng::mix(idx ^ 0xb0f) % 4 == 0);
    if run::reuse() {
        c.count("cases with one buffer read into again and again", 1);
    }
    let nest = !matches!(id, "C24" | "C26") && rng::mix(idx ^ 0x9e57) % 5 == 0;
    adapt::set_nest(nest);
    let r = caught(|| (p.f)(&mut c));
    adapt::set_nest(false);
    run::set_reuse(false);
    alloc::no_cap();
    probe::set_limit(u64::MAX);
    c.t.evaluations += 1;
    (r, c.t)
}

const THREADS: usize = 8;
static BUSY: [AtomicU64; THREADS] = [const { AtomicU64::new(0) }; THREADS];
static CASE: [AtomicU64; THREADS] = [const { AtomicU64::new(0) }; THREADS];

fn work(p: &'static Plan, id: &'static str, seed: u64, thorough: bool, dict: &'static [u64], total: u64, cap: Duration) {
    let t0 = Instant::now();
    let mut hs = vec![];
    for k in 0..THREADS {
        let h = std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn(move || {
                let mut t = Tally::default();
                loop {
                    if ctx::STOP.load(SeqCst) || t0.elapsed() > cap {
                        break;
                    }
                    let idx = ctx::NEXT.fetch_add(1, SeqCst);
                    if idx >= total {
                        break;
                    }
                    CASE[k].store(idx, SeqCst);
                    BUSY[k].store(t0.elapsed().as_millis() as u64 + 1, SeqCst);
                    let (r, t2) = one(p, id, idx, seed, thorough, dict, std::mem::take(&mut t));
                    BUSY[k].store(0, SeqCst);
                    t = t2;
                    if let Err(e) = r {
                        ctx::violation(idx, &e);
                        break;
                    }
                }
                ctx::merge(t);
            })
            .unwrap();
        hs.push(h);
    }
    // something that waits, and counts no steps
    let watch = if thorough { 600_000 } else { 240_000 };
    while !hs.iter().all(|h| h.is_finished()) {
        std::thread::sleep(Duration::from_millis(20));
        let now = t0.elapsed().as_millis() as u64;
        for (b, i) in BUSY.iter().zip(&CASE) {
            let s = b.load(SeqCst);
            if s > 0 && now > s + watch {
                ctx::set_case(i.load(SeqCst));
                ctx::fatal("a case did not end within minutes; the library blocks");
            }
        }
    }
    for h in hs {
        let _ = h.join();
    }
}

fn known() -> Vec<(String, String, String)> {
    // property, id, text
    let f = std::env::var("VERIF_KNOWN").unwrap_or_else(|_| "KNOWN_FINDINGS".into());
    let s = std::fs::read_to_string(f).unwrap_or_default();
    let mut v = vec![];
    for l in s.lines() {
        if let Some(r) = l.strip_prefix("KNOWN-FINDING: property=") {
            let mut w = r.splitn(3, ' ');
            let (p, i, t) = (w.next(), w.next(), w.next());
            if let (Some(p), Some(i), Some(t)) = (p, i.and_then(|i| i.strip_prefix("id=")), t) {
                v.push((p.to_string(), i.to_string(), t.to_string()));
            }
        }
    }
    v
}

fn start(id: &str, seed: u64, tier: &str, replay: bool, rule: &str) {
    ctx::start(ctx::Run {
        prop: id.to_string(),
        seed,
        tier: tier.to_string(),
        replay,
        start: Instant::now(),
        dir: "evidence".into(),
        rule: rule.to_string(),
        known: known().into_iter().filter(|k| k.0 == id).map(|k| (k.1, k.2)).collect(),
    });
}

fn child(id: &str, seed: u64, tier: &str) -> i32 {
    hook();
    let id: &'static str = Box::leak(id.to_string().into_boxed_str());
    let thorough = tier == "thorough";
    if id == "C27" || id == "C30" {
        start(id, seed, tier, false, extra::rule(id));
        let r = if id == "C27" { extra::c27(seed, thorough) } else { extra::c30(seed, thorough) };
        return end(id, r);
    }
    let Some(p) = plan(id) else {
        eprintln!("no such property: {}", id);
        return 2;
    };
    let p: &'static Plan = Box::leak(Box::new(p));
    start(id, seed, tier, false, p.rule);
    let dict = calibrate();
    let total = if thorough { p.thorough } else { p.quick };
    let total = std::env::var("VERIF_CASES").ok().and_then(|s| s.parse().ok()).unwrap_or(total);
    let cap = std::env::var("VERIF_CAP").ok().and_then(|s| s.parse().ok());
    let cap = Duration::from_secs(cap.unwrap_or(if thorough { 780 } else { 120 }));
    work(p, id, seed, thorough, dict, total, cap);
    let mut more = vec![
        ("constants_taken_from_the_library".to_string(), dict.len().to_string()),
        ("planned_cases_not_run".to_string(), (total - ctx::totals(|t| t.evaluations).min(total)).to_string()),
    ];
    if id == "C22" && !ctx::violated() {
        match extra::processes(seed, thorough) {
            Ok(n) => more.push(("cases_repeated_in_other_processes".to_string(), n.to_string())),
            Err(e) => ctx::violation(u64::MAX, &e),
        }
        if !ctx::violated() {
            match extra::races(seed, thorough) {
                Ok(n) => more.push(("instances_made_while_others_were".to_string(), n.to_string())),
                Err(e) => ctx::violation(u64::MAX, &e),
            }
        }
    }
    if id == "C06" && !ctx::violated() {
        match extra::deep(seed, thorough) {
            Ok(n) => more.push(("bytes_on_a_small_stack".to_string(), n.to_string())),
            Err(e) => ctx::violation(u64::MAX, &e),
        }
    }
    end(id, Ok(more))
}

/// What check.py saw the sanitizers and the interpreter do: "bad <message>" or "ok <count> <what>"
fn stages(more: &mut Vec<(String, String)>) {
    let Ok(f) = std::env::var("VERIF_STAGES") else { return };
    for l in std::fs::read_to_string(f).unwrap_or_default().lines() {
        if let Some(m) = l.strip_prefix("bad ") {
            ctx::desc("a stage of check.py; run the command in it".into());
            ctx::violation(u64::MAX, m);
        } else if let Some((n, k)) = l.strip_prefix("ok ").and_then(|r| r.split_once(' ')) {
            if n.parse::<u64>().is_ok() {
                more.push((k.to_string(), n.to_string()));
            }
        }
    }
}

fn end(id: &str, r: Result<Vec<(String, String)>, extra::Bad>) -> i32 {
    let mut more = match r {
        Ok(m) => m,
        Err(extra::Bad::Violation(e)) => {
            ctx::violation(u64::MAX, &e);
            vec![]
        }
        Err(extra::Bad::Broken(e)) => {
            eprintln!("{}: the check cannot run: {}", id, e);
            return 3;
        }
    };
    stages(&mut more);
    let (yes, no) = ctx::known_listed();
    for (k, n, t) in &yes {
        println!("KNOWN-FINDING: property={} id={} {} ({} times in this run)", id, k, t, n);
    }
    if let Some((k, t)) = no.first() {
        ctx::violation(u64::MAX, &format!("{}: {}", k, t));
    }
    ctx::finish(&more);
    if ctx::violated() {
        return 1;
    }
    let (ev, nt) = ctx::totals(|t| (t.evaluations, t.nontrivial.len()));
    if ev == 0 || nt == 0 {
        eprintln!("{}: nothing was observed, {} cases", id, ev);
        return 3;
    }
    println!(
        "{}: held in {} cases, {} of them distinct and non-trivial; {}",
        id,
        ev,
        nt,
        ctx::totals(|t| t
            .ev
            .iter()
            .map(|(k, v)| format!("{} {}", v, k))
            .collect::<Vec<_>>()
            .join(", "))
    );
    0
}

/// The monitored code may take the process with it.
fn supervise(id: &str, seed: u64, tier: &str) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().unwrap();
    let t0 = Instant::now();
    let st = match std::process::Command::new(exe).arg("--child").arg(id).status() {
        Ok(s) => s,
        Err(e) => {
            eprintln!("cannot run: {}", e);
            return 3;
        }
    };
    if let Some(c) = st.code() {
        return c;
    }
    let sig = st.signal().unwrap_or(0);
    // 4 ill, 6 abrt, 7 bus, 8 fpe, 11 segv, 5 trap
    if ![4, 5, 6, 7, 8, 11].contains(&sig) {
        eprintln!("{}: ended by signal {}", id, sig);
        return 3;
    }
    start(id, seed, tier, false, "see DESIGN.md");
    ctx::desc("the whole run".into());
    ctx::violation(
        u64::MAX,
        &format!("the library crashed the process with signal {} after {:.1} s", sig, t0.elapsed().as_secs_f64()),
    );
    ctx::finish(&[]);
    1
}

fn replay(file: &str) -> i32 {
    let s = match std::fs::read_to_string(file) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("{}: {}", file, e);
            return 2;
        }
    };
    let w: Vec<&str> = s.lines().next().unwrap_or("").split(' ').collect();
    if w.len() != 5 {
        eprintln!("not a replay file");
        return 2;
    }
    let (id, seed, tier, idx) =
        (w[1], w[2].parse().unwrap(), w[3], w[4].parse::<u64>().unwrap());
    if idx == u64::MAX || plan(id).is_none() {
        // the whole run
        std::env::set_var("VERIF_SEED", w[2]);
        std::env::set_var("VERIF_TIER", tier);
        return supervise(id, seed, tier);
    }
    hook();
    start(id, seed, tier, true, "");
    let p = plan(id).unwrap();
    let dict = calibrate();
    let id: &'static str = Box::leak(id.to_string().into_boxed_str());
    let tier: &'static str = Box::leak(tier.to_string().into_boxed_str());
    let h = std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
        let (r, t) = one(&p, id, idx, seed, tier == "thorough", dict, Tally::default());
        if let Err(e) = r {
            ctx::violation(idx, &e);
        }
        ctx::merge(t);
    });
    let _ = h.unwrap().join();
    if ctx::violated() {
        1
    } else {
        println!("{} case {}: held", id, idx);
        0
    }
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    let c = match a.iter().map(|s| s.as_str()).collect::<Vec<_>>()[..] {
        ["--child", id] => child(id, seed, tier),
        ["replay", f] => replay(f),
        ["digest", ref r @ ..] => {
            hook();
            digest::main(r)
        }
        [id] => supervise(id, seed, tier),
        _ => {
            eprintln!("mon <ID> | mon replay <file>");
            2
        }
    };
    std::process::exit(c)
}
