//! What one case has at hand, and the bookkeeping of a run.
use crate::rng::Rng;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::Instant;

pub type R<T = ()> = Result<T, String>;

pub struct Ctx {
    pub rng: Rng,
    pub idx: u64,
    pub seed: u64,
    pub thorough: bool,
    pub dict: &'static [u64],
    pub t: Tally,
}

#[derive(Default)]
pub struct Tally {
    pub evaluations: u64,
    pub ev: BTreeMap<String, u64>,
    pub nontrivial: HashSet<u64>,
    pub situations: HashSet<u64>,
    pub samples: Vec<String>,
    pub known: BTreeMap<String, (u64, String)>,
}
impl Tally {
    pub fn merge(&mut self, o: Tally) {
        self.evaluations += o.evaluations;
        for (k, v) in o.ev {
            *self.ev.entry(k).or_insert(0) += v;
        }
        self.nontrivial.extend(o.nontrivial);
        self.situations.extend(o.situations);
        for s in o.samples {
            if self.samples.len() < 6 {
                self.samples.push(s);
            }
        }
        for (k, v) in o.known {
            let e = self.known.entry(k).or_insert((0, v.1));
            e.0 += v.0;
        }
    }
}

impl Ctx {
    pub fn count(&mut self, k: &str, n: u64) {
        match self.t.ev.get_mut(k) {
            Some(v) => *v += n,
            None => {
                self.t.ev.insert(k.to_string(), n);
            }
        }
    }
    pub fn sit(&mut self, parts: &[u64]) {
        let mut h = 7u64;
        for p in parts {
            h = crate::rng::mix(h ^ p);
        }
        self.t.situations.insert(h);
    }
    pub fn nontrivial(&mut self, h: u64) {
        self.t.nontrivial.insert(h);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.t.samples.len() < 2 {
            let s = f();
            self.t.samples.push(s);
        }
    }
    pub fn known(&mut self, id: &str, text: String) {
        let e = self.t.known.entry(id.to_string()).or_insert((0, text));
        e.0 += 1;
    }
}

pub fn hash_bytes(d: &[u8]) -> u64 {
    let mut h = crate::rng::mix(d.len() as u64);
    for c in d.chunks(8) {
        let mut b = [0; 8];
        b[..c.len()].copy_from_slice(c);
        h = (h.rotate_left(5) ^ u64::from_le_bytes(b)).wrapping_mul(0x9e37_79b9_7f4a_7c15);
    }
    crate::rng::mix(h)
}

thread_local! {
    /// description of the case the thread is on, for reports
    static DESC: RefCell<String> = const { RefCell::new(String::new()) };
    static IDX: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
    pub static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}
pub fn desc(s: String) {
    DESC.with(|d| *d.borrow_mut() = s);
}
pub fn get_desc() -> String {
    DESC.with(|d| d.try_borrow().map(|d| d.clone()).unwrap_or_default())
}
pub fn set_idx(i: u64) {
    IDX.with(|c| c.set(i));
}

pub struct Run {
    pub prop: String,
    pub seed: u64,
    pub tier: String,
    pub replay: bool,
    pub start: Instant,
    pub dir: String,
    pub rule: String,
    pub known: Vec<(String, String)>,
}
static RUN: Mutex<Option<Run>> = Mutex::new(None);
static TOTAL: Mutex<Option<Tally>> = Mutex::new(None);
pub static STOP: AtomicBool = AtomicBool::new(false);
pub static NEXT: AtomicU64 = AtomicU64::new(0);
static VIOLATED: AtomicBool = AtomicBool::new(false);

pub fn start(r: Run) {
    *RUN.lock().unwrap() = Some(r);
    *TOTAL.lock().unwrap() = Some(Tally::default());
}
pub fn merge(t: Tally) {
    TOTAL.lock().unwrap_or_else(|e| e.into_inner()).as_mut().unwrap().merge(t);
}
pub fn violated() -> bool {
    VIOLATED.load(SeqCst)
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Reports the first violation of this run; later ones are dropped.
pub fn violation(idx: u64, text: &str) {
    if VIOLATED.swap(true, SeqCst) {
        return;
    }
    STOP.store(true, SeqCst);
    let g = RUN.lock().unwrap_or_else(|e| e.into_inner());
    let r = g.as_ref().unwrap();
    let path = format!("{}/replay/{}-{}-{}.txt", r.dir, r.prop, r.seed, idx);
    let _ = std::fs::create_dir_all(format!("{}/replay", r.dir));
    let _ = std::fs::write(
        &path,
        format!(
            "replay {} {} {} {}\n{}\n\ncase: {}\n",
            r.prop,
            r.seed,
            r.tier,
            idx,
            text,
            get_desc()
        ),
    );
    println!("{}: {}", r.prop, text);
    let d = get_desc();
    println!("  case {}: {}", idx, &d.chars().take(600).collect::<String>());
    println!("VIOLATION property={} replay={}", r.prop, path);
}

/// From inside the library: no way back.
pub fn set_case(idx: u64) {
    IDX.with(|c| c.set(idx));
}
pub fn fatal(what: &str) -> ! {
    crate::alloc::no_cap();
    probe::set_limit(u64::MAX);
    let first = !violated();
    violation(IDX.with(|c| c.get()), what);
    if first {
        finish(&[]);
    } else {
        std::thread::sleep(std::time::Duration::from_secs(5));
    }
    std::process::exit(1)
}

/// Writes the evidence. What was violated is in it, too.
pub fn finish(extra: &[(String, String)]) {
    let g = RUN.lock().unwrap_or_else(|e| e.into_inner());
    let r = g.as_ref().unwrap();
    if r.replay {
        return;
    }
    let t = TOTAL.lock().unwrap_or_else(|e| e.into_inner());
    let t = t.as_ref().unwrap();
    let ev: Vec<String> = t.ev.iter().map(|(k, v)| format!("{}: {}", json(k), v)).collect();
    let mut more = String::new();
    for (k, v) in extra {
        more.push_str(&format!(",\n    {}: {}", json(k), v));
    }
    let known: Vec<String> =
        t.known.iter().map(|(k, v)| format!("{}: {}", json(k), v.0)).collect();
    let samples: Vec<String> = t.samples.iter().map(|s| json(s)).collect();
    let out = format!(
        "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": \"exploration\",\n  \"coverage\": {{\n    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n    \"samples\": [{}],\n    \"observed\": {{{}}},\n    \"distinct_situations\": {},\n    \"known_findings_seen\": {{{}}},\n    \"library_edges_hit\": {},\n    \"library_edges_total\": {}{}\n  }},\n  \"assumptions\": [\"the configuration is within its documented domain (see DESIGN.md)\", \"the reference definitions and tables in harness/src are right\"],\n  \"wall_s\": {:.2},\n  \"violations\": {}\n}}\n",
        json(&r.prop),
        json(&r.tier),
        r.seed,
        t.evaluations,
        t.nontrivial.len(),
        json(&r.rule),
        samples.join(", "),
        ev.join(", "),
        t.situations.len(),
        known.join(", "),
        probe::edges_hit(),
        probe::edges_total(),
        more,
        r.start.elapsed().as_secs_f64(),
        violated() as u32
    );
    let _ = std::fs::create_dir_all(&r.dir);
    if let Err(e) = std::fs::write(format!("{}/{}.json", r.dir, r.prop), out) {
        eprintln!("cannot write evidence: {}", e);
    }
}

/// Splits the findings seen into those that the file lists, and others.
pub fn known_listed() -> (Vec<(String, u64, String)>, Vec<(String, String)>) {
    let g = RUN.lock().unwrap();
    let r = g.as_ref().unwrap();
    let t = TOTAL.lock().unwrap();
    let (mut yes, mut no) = (vec![], vec![]);
    for (k, (n, text)) in &t.as_ref().unwrap().known {
        match r.known.iter().find(|x| x.0 == *k) {
            Some(x) => yes.push((k.clone(), *n, x.1.clone())),
            None => no.push((k.clone(), text.clone())),
        }
    }
    (yes, no)
}
pub fn totals<T>(f: impl FnOnce(&Tally) -> T) -> T {
    f(TOTAL.lock().unwrap().as_ref().unwrap())
}
