//! The properties: what is run, and what is watched.
use crate::ctx::{desc, hash_bytes, Ctx, R};
use crate::gen::{self, Gen, Regime, Step, TABLES};
use crate::model::{Api, Model, ALGOS};
use crate::rng::Rng;
use crate::run::{self, arm, diff, Log, Searcher};
use crate::{alloc, tables};
use adapt::{build, BuzH, Cfg, Chunker, Incr, Search, Table32, Table64, ZpaqHow};
use std::ops::Bound;

pub struct Setup {
    pub algo: usize,
    pub g: Regime,
    pub cfg: Cfg,
    pub m: Model,
    pub ch: Box<dyn Chunker>,
    pub data: Vec<u8>,
}

pub const ALL: [usize; 10] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9];

pub fn regime(c: &Ctx, n: usize) -> Regime {
    // hashed: other choices go by the index too
    match crate::rng::mix(c.idx / n as u64 ^ 0x7e9) % 10 {
        0 | 2 | 4 | 6 | 8 => Regime::Small,
        1 | 3 | 7 => Regime::Usual,
        _ => Regime::Extreme,
    }
}

pub fn describe(cfg: &Cfg, d: &[u8]) -> String {
    let mut s = format!("{:?}; {} bytes, hash {:016x}:", cfg, d.len(), hash_bytes(d));
    for b in d.iter().take(40) {
        s.push_str(&format!(" {:02x}", b));
    }
    s
}

pub fn setup_with(c: &mut Ctx, algo: usize, g: Regime, cfg: Cfg, data: Option<Vec<u8>>) -> Setup {
    desc(format!("{:?}", cfg));
    arm(1 << 20);
    let m = Model::new(&cfg);
    let ch = build(&cfg, &TABLES);
    let data = data.unwrap_or_else(|| {
        let mut ge = Gen { r: &mut c.rng, m: &m, dict: c.dict };
        if ge.r.p(1, 50) {
            return ge.round();
        }
        let n = ge.size(true);
        ge.data(n)
    });
    desc(describe(&cfg, &data));
    c.count(ALGOS[algo], 1);
    c.count("stream bytes", data.len() as u64);
    Setup { algo, g, cfg, m, ch, data }
}

pub fn setup(c: &mut Ctx, algos: &[usize]) -> Setup {
    let algo = algos[(c.idx % algos.len() as u64) as usize];
    let g = regime(c, algos.len());
    let cfg = gen::cfg(&mut c.rng, c.dict, algo, g);
    setup_with(c, algo, g, cfg, None)
}

impl Setup {
    pub fn params(&self) -> Vec<u64> {
        let mut r = Rng::new(&[0]);
        Gen { r: &mut r, m: &self.m, dict: &[] }.params()
    }
    pub fn segs(&self, c: &mut Ctx, at: &[usize]) -> (u8, Vec<usize>) {
        gen::segs(&mut c.rng, self.data.len(), at, &self.params(), c.dict)
    }
    pub fn is_fast(&self) -> bool {
        self.algo == 3
    }
    /// notes what was seen
    pub fn seen(&self, c: &mut Ctx, style: u8, segs: &[usize], cuts: &[usize], log: &Log) {
        c.count("calls into the library", log.calls);
        c.count("bytes handed over", log.bytes);
        c.count("edges", cuts.len() as u64);
        c.count("empty hand-overs", log.empty);
        let l = cuts.windows(2).map(|w| w[1] - w[0]).chain(cuts.first().copied());
        let mut lens = [false; 64];
        for x in l {
            lens[(64 - (x as u64).leading_zeros()) as usize % 64] = true;
        }
        for (i, x) in lens.iter().enumerate() {
            if *x {
                c.sit(&[1, self.algo as u64, i as u64, self.g as u64]);
            }
        }
        // where the edges were relative to the borders of what was handed over
        let mut p = 0;
        let mut it = cuts.iter().peekable();
        let w = self.m.window().unwrap_or(0);
        for s in segs.iter().take(4000) {
            let e = p + s;
            while let Some(q) = it.peek() {
                if **q > e {
                    break;
                }
                let a = (**q - p.min(**q)).min(3) as u64;
                let b = (e - **q).min(3) as u64;
                c.sit(&[2, self.algo as u64, a, b, style as u64]);
                c.sit(&[3, self.algo as u64, a, (**q - p.min(**q) >= w) as u64, b]);
                it.next();
            }
            p = e;
        }
        if !cuts.is_empty() {
            let h = hash_bytes(&self.data)
                ^ crate::rng::mix(cuts.len() as u64)
                ^ crate::rng::mix(segs.len() as u64 + 77)
                ^ hash_bytes(format!("{:?}", self.cfg).as_bytes());
            c.nontrivial(h);
        }
        c.sample(|| {
            format!(
                "{}; {} hand-overs (style {}), first {:?}; edges at {:?}{}",
                describe(&self.cfg, &self.data),
                segs.len(),
                style,
                &segs[..segs.len().min(8)],
                &cuts[..cuts.len().min(8)],
                if cuts.len() > 8 { " ..." } else { "" }
            )
        });
    }
}

fn eq(what: &str, a: &[usize], b: &[usize]) -> R {
    if a != b {
        return Err(format!("{}: {}", what, diff(a, b)));
    }
    Ok(())
}
fn ends(cuts: &[usize], n: usize) -> Vec<usize> {
    let mut v = cuts.to_vec();
    if v.last().copied().unwrap_or(0) < n {
        v.push(n);
    }
    v
}

/// A long life for one instance: more than 2^16 chunks, or (not `chunks`) as many bytes, all
/// from one source
fn long_life(c: &mut Ctx, algo: usize, chunks: bool) -> Setup {
    if !chunks {
        let g = if c.rng.p(1, 2) { Regime::Usual } else { Regime::Small };
        let cfg = gen::cfg(&mut c.rng, c.dict, algo, g);
        let n = 66_000 + c.rng.us(0, 9000);
        let m = Model::new(&cfg);
        let mut data = vec![];
        while data.len() < n {
            let k = (n - data.len()).min(20_000);
            let mut ge = Gen { r: &mut c.rng, m: &m, dict: c.dict };
            let d = ge.data(k.max(1));
            data.extend_from_slice(if d.is_empty() { &[1] } else { &d });
        }
        c.count("streams in more than 2^16 calls", 1);
        return setup_with(c, algo, g, cfg, Some(data));
    }
    let mut best: Option<(usize, Cfg, Vec<u8>)> = None;
    for i in 0..4000 {
        let (cfg, bytes) = if algo == 0 {
            // the bytes after a reset that end a chunk soon
            (Cfg::Bup { window: Some(c.rng.us(1, 300)) }, vec![c.rng.u64() as u8; 24])
        } else {
            let g = if c.rng.p(1, 2) { Regime::Small } else { Regime::Extreme };
            let cfg = gen::cfg(&mut c.rng, c.dict, algo, g);
            let k = c.rng.us(1, 255);
            let b: Vec<u8> = (0..600).map(|_| c.rng.us(0, k) as u8).collect();
            (cfg, b)
        };
        let m = Model::new(&cfg);
        if m.window().map_or(false, |w| w > 300) {
            continue;
        }
        // bytes per chunk
        let cost = match m.cuts(&bytes, Api::Search).len() {
            0 => continue,
            k => bytes.len() / k,
        };
        if best.as_ref().map_or(true, |b| cost < b.0) {
            best = Some((cost, cfg, bytes));
        }
        if best.as_ref().map_or(false, |b| b.0 <= 8 || (i > 60 && b.0 <= 24)) {
            break;
        }
    }
    let Some((cost, cfg, bytes)) = best else {
        return long_life(c, algo, false);
    };
    let n = (70_000 * (cost + 1)).min(3 << 20);
    let mut data = Vec::with_capacity(n + 600);
    while data.len() < n {
        data.extend_from_slice(&bytes);
        if algo != 0 {
            let x = c.rng.us(0, 599);
            data.push(bytes[x]);
        }
    }
    c.count("streams meant for more than 2^16 chunks", 1);
    setup_with(c, algo, Regime::Extreme, cfg, Some(data))
}
/// Chunks of more than a MiB: a filler without edges, limits about there, and some more edges.
fn mega(c: &mut Ctx, algo: usize) -> Setup {
    let r = &mut c.rng;
    let mut l = if r.p(1, 2) { (1u64 << r.range(20, 22)) * r.range(1, 2) } else { r.range(1_000_000, 5_000_000) };
    match r.below(4) {
        0 => l -= r.range(1, 3),
        1 => l += r.range(1, 3),
        _ => {}
    }
    let max = if r.p(1, 2) { l } else { u64::MAX };
    let cfg = match algo {
        0 => Cfg::Bup { window: if r.p(1, 2) { None } else { Some(r.us(10, 300)) } },
        1 => {
            let k = r.us(10, 300);
            Cfg::Buz { k, mask: (1 << r.range(6, 20)) - 1, max, hash: BuzH::Salt(r.u64() as u8, Table32::Go) }
        }
        2 => Cfg::Gear { log2: Some(r.us(7, 14)) },
        3 => match r.below(3) {
            0 => Cfg::FastCdc { p: Some((Table64::Std, l, l + r.below(2000), l + r.range(2000, 9000))) },
            1 => Cfg::FastCdc { p: Some((Table64::Std, r.below(500), l - r.below(500), l)) },
            _ => Cfg::FastCdc { p: Some((Table64::Std, r.below(500), 1000 + r.below(9000), u64::MAX)) },
        },
        4 => {
            let w = r.us(10, 3000);
            Cfg::Gzip { p: Some((w, w as u64 + r.range(1, 3000))) }
        }
        5 => Cfg::Pigz { bits: if r.p(1, 2) { None } else { Some(r.range(7, 20) as u8) } },
        6 => Cfg::Zpaq(ZpaqHow::AvgRange(
            r.range(1, 20) as u8,
            Bound::Included(if r.p(1, 2) { l - r.below(5000) } else { r.below(5000) }),
            if r.p(1, 2) { Bound::Included(l) } else { Bound::Unbounded },
        )),
        7 => Cfg::Zstd { section: None },
        8 => Cfg::Mii { w: Some(r.us(3, 8) as _) },
        _ => Cfg::Ram { w: l },
    };
    let b = crate::extra::no_edges(&cfg, 4096 + 2 * Model::new(&cfg).window().unwrap_or(0));
    let m = Model::new(&cfg);
    let k = c.rng.us(0, 500);
    let mut data = c.rng.bytes(k);
    let b = b.unwrap_or(if algo == 9 { 0 } else { 7 });
    data.resize(data.len() + l as usize - c.rng.us(0, 40), b);
    let mut st = Step::new(&m);
    for _ in 0..3 {
        let mut g = Gen { r: &mut c.rng, m: &m, dict: c.dict };
        let n = g.len(9000);
        g.chunk(&mut st, n, &mut data);
    }
    let k = c.rng.us(0, 400);
    data.extend_from_slice(&c.rng.bytes(k));
    c.count("streams with a chunk of about a MiB or more", 1);
    setup_with(c, algo, Regime::Extreme, cfg, Some(data))
}
/// now and then
fn setup_or_mega(c: &mut Ctx) -> Setup {
    if c.idx / 10 % 100 == 51 {
        return mega(c, (c.idx % 10) as usize);
    }
    setup(c, &ALL)
}

/// steps of a few bytes
fn little(c: &mut Ctx, n: usize, most: usize) -> Vec<usize> {
    let mut v = vec![];
    let mut left = n;
    while left > 0 {
        let k = c.rng.us(1, most).min(left);
        v.push(k);
        left -= k;
    }
    v
}
/// one long life by push or by search, in little steps, against what it is at once
fn long_case(c: &mut Ctx, k: u64, model: bool, push: bool, search: bool) -> R {
    let (algo, chunks) = ((k % 10) as usize, k / 10 % 2 == 0);
    let s = long_life(c, algo, chunks);
    long_with(c, &s, if chunks { 5 } else { 1 }, model, push, search)
}
fn long_with(c: &mut Ctx, s: &Setup, most: usize, model: bool, push: bool, search: bool) -> R {
    let n = s.data.len();
    let segs = little(c, n, most);
    let mut log = Log::default();
    let mut most = 0;
    if push {
        let want = if model { s.m.cuts(&s.data, Api::Incr) } else { run::incr(&mut *s.ch.incr(), &s.data, &[n], &mut log)? };
        most = most.max(want.len());
        let x = run::incr(&mut *s.ch.incr(), &s.data, &segs, &mut log)?;
        eq(&format!("{} pushes to one chunker", segs.len()), &x, &want)?;
        s.seen(c, 40, &segs[..100.min(segs.len())], &x, &log);
    }
    if search {
        let mut log = Log::default();
        let want = if model { s.m.cuts(&s.data, Api::Search) } else { run::search(&mut *s.ch.search(), &s.data, &[n], false, &mut log)? };
        most = most.max(want.len());
        let x = run::search(&mut *s.ch.search(), &s.data, &segs, false, &mut log)?;
        eq(&format!("searches in a buffer that grows in {} steps", segs.len()), &x, &want)?;
        s.seen(c, 41, &segs[..100.min(segs.len())], &x, &log);
    }
    if most > 65536 {
        c.count("streams with more than 2^16 chunks", 1);
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------- C01

fn prefed(c: &mut Ctx, s: &Setup, pre: &[u8], log: &mut Log) -> R<Box<dyn Incr>> {
    let mut x = s.ch.incr();
    // without regard to edges: all of it is history
    let mut d = pre;
    let mut k = 0;
    while !d.is_empty() {
        match run::push(&mut *x, d, log)? {
            None => break,
            Some(n) => d = &d[n..],
        }
        k += 1;
        if k > pre.len() + 2 {
            return Err("no progress".into());
        }
    }
    c.count("pre-fed bytes", pre.len() as u64);
    Ok(x)
}

pub fn c01(c: &mut Ctx) -> R {
    if c.idx / 10 % 5 == 4 {
        return c01_script(c);
    }
    let s = setup_or_mega(c);
    let mut log = Log::default();
    let strict = c.rng.p(1, 2);
    let pre = if c.rng.p(1, 3) && !s.data.is_empty() {
        let n = c.rng.us(0, s.data.len().min(5000));
        let a = c.rng.us(0, s.data.len() - n);
        s.data[a..a + n].to_vec()
    } else {
        vec![]
    };
    // what the slices should be, from the positions that push gives
    let mut x = prefed(c, &s, &pre, &mut log)?;
    let mut want: Vec<usize> = vec![];
    let mut p = 0;
    loop {
        if p == s.data.len() {
            break;
        }
        match run::push(&mut *x, &s.data[p..], &mut log)? {
            Some(n) => {
                p += n;
                want.push(p);
            }
            None => break,
        }
        if want.len() > s.data.len() + 3 {
            return Err("push makes no progress".into());
        }
    }
    let rest = p;
    if !strict && rest < s.data.len() {
        want.push(s.data.len());
    }
    let y = prefed(c, &s, &pre, &mut log)?;
    drive(c, y, &s.data, &want, rest, strict, Some(&s))?;
    s.seen(c, strict as u8, &[s.data.len()], &want, &log);
    Ok(())
}

/// Drives a slice iterator in a random way. The slices end at `want`; `rest` is where the strict
/// one stops.
fn drive(
    c: &mut Ctx,
    x: Box<dyn Incr>,
    data: &[u8],
    want: &[usize],
    rest: usize,
    strict: bool,
    _s: Option<&Setup>,
) -> R {
    let n = data.len();
    arm(n * 4 + 1000);
    let base = data.as_ptr() as usize;
    let mut it = x.iter(data, strict);
    let mut i = 0;
    let slice = |i: usize| -> (usize, usize) {
        let a = if i == 0 { 0 } else { want[i - 1] };
        (a, want[i] - a)
    };
    let void = (0..want.len()).rev().find(|i| slice(*i).1 == 0);
    let check = |got: Option<&[u8]>, i: usize| -> R {
        match got {
            None if i >= want.len() => Ok(()),
            None => Err(format!("the iterator ended before slice {} of {}", i, want.len())),
            Some(g) if i >= want.len() => {
                Err(format!("slice {} of {} has {} bytes", i, want.len(), g.len()))
            }
            Some(g) => {
                let (a, l) = slice(i);
                let off = (g.as_ptr() as usize).wrapping_sub(base);
                if g.len() != l || (l > 0 && off != a) {
                    return Err(format!(
                        "slice {} is {} bytes at {}, should be {} at {}",
                        i,
                        g.len(),
                        off as isize,
                        l,
                        a
                    ));
                }
                Ok(())
            }
        }
    };
    // it has said that it is at its end
    let over = |mut it: Box<dyn adapt::Slices + '_>, parts: bool| -> R {
        let left = if strict { n - rest } else { 0 };
        if !strict && !parts {
            if it.next().is_some() || it.nth(1).is_some() || it.next().is_some() {
                return Err("a slice after the end".into());
            }
        }
        let r = if parts || !strict { it.parts().1 } else { it.take_rem().unwrap() };
        let off = (r.as_ptr() as usize).wrapping_sub(base);
        if r.len() != left || (left > 0 && off != rest) {
            return Err(format!("{} bytes at {} remain at the end, should be {}", r.len(), off as isize, left));
        }
        Ok(())
    };
    loop {
        arm(n * 4 + 1000);
        let (lo, hi) = it.hint();
        let left = want.len() - i.min(want.len());
        // a bound may rest on slices not being empty, which only a chunker that says `Some(0)` upsets
        let full = void.map_or(true, |v| i > v);
        if lo > left || (full && hi.map_or(false, |h| h < left)) {
            return Err(format!("size_hint is ({}, {:?}) with {} slices to come", lo, hi, left));
        }
        match c.rng.below(14) {
            0 => {
                c.count("nth", 1);
                let k = c.rng.below(4) as usize;
                let g = it.nth(k);
                i += k;
                check(g, i)?;
                if g.is_none() {
                    return over(it, c.rng.p(1, 2));
                }
                i += 1;
            }
            1 => {
                c.count("count", 1);
                let k = it.count();
                if k != left {
                    return Err(format!("count() is {} with {} slices to come", k, left));
                }
                return Ok(());
            }
            2 => {
                c.count("last", 1);
                let g = it.last();
                if left == 0 {
                    if g.is_some() {
                        return Err("last() of an iterator that has ended".into());
                    }
                } else {
                    check(g, want.len() - 1)?;
                }
                return Ok(());
            }
            3 => {
                c.count("for_each", 1);
                let mut bad = None;
                let mut j = i;
                it.each(&mut |g| {
                    if bad.is_none() {
                        if let Err(e) = check(Some(g), j) {
                            bad = Some(e);
                        }
                    }
                    j += 1;
                });
                if let Some(e) = bad {
                    return Err(e);
                }
                if j != want.len().max(i) {
                    return Err(format!("for_each gave {} slices of {}", j, want.len()));
                }
                return Ok(());
            }
            4 if i > 0 => {
                c.count("into_parts", 1);
                let p = if i == 0 { 0 } else { want[i.min(want.len()) - 1] };
                let (_x, r) = it.parts();
                let off = (r.as_ptr() as usize).wrapping_sub(base);
                if r.len() != n - p || (!r.is_empty() && off != p) {
                    return Err(format!(
                        "into_parts gives {} bytes at {} when slices went up to {} of {}",
                        r.len(),
                        off as isize,
                        p,
                        n
                    ));
                }
                return Ok(());
            }
            5 if strict => {
                c.count("take_rem", 1);
                let p = if i == 0 { 0 } else { want[i.min(want.len()) - 1] };
                let r = it.take_rem().unwrap();
                let off = (r.as_ptr() as usize).wrapping_sub(base);
                if r.len() != n - p || (!r.is_empty() && off != p) {
                    return Err(format!(
                        "take_rem gives {} bytes at {} when slices went up to {} of {}",
                        r.len(),
                        off as isize,
                        p,
                        n
                    ));
                }
                // nothing is left
                if it.take_rem().map_or(false, |r| !r.is_empty()) {
                    return Err("take_rem gives something twice".into());
                }
                if it.next().map_or(false, |r| !r.is_empty()) {
                    return Err("a slice after the remainder was taken".into());
                }
                if !it.parts().1.is_empty() {
                    return Err("into_parts gives something that take_rem gave before".into());
                }
                return Ok(());
            }
            _ => {
                let g = it.next();
                check(g, i)?;
                if g.is_none() {
                    return over(it, c.rng.p(1, 2));
                }
                i += 1;
            }
        }
    }
}

fn c01_script(c: &mut Ctx) -> R {
    let n = match c.rng.below(4) {
        0 => c.rng.us(0, 5),
        1 => c.rng.us(0, 300),
        _ => c.rng.log(1, 70_000) as usize,
    };
    let data = c.rng.bytes(n);
    let strict = c.rng.p(1, 2);
    let mut plan = std::collections::VecDeque::new();
    let (mut want, mut p) = (vec![], 0);
    let mut calls = vec![];
    let zeros = c.rng.p(1, 6);
    loop {
        if p == n && !strict {
            break;
        }
        if p < n {
            calls.push((p, n - p));
        }
        if c.rng.p(1, 12) || (p == n) || want.len() > 400 {
            plan.push_back(None);
            break;
        }
        let left = n - p;
        let l = match c.rng.below(4) {
            0 => c.rng.us(1, left.min(4)),
            1 => left - c.rng.us(0, (left - 1).min(2)),
            2 if zeros => 0,
            _ => c.rng.log(1, left as u64) as usize,
        };
        plan.push_back(Some(l));
        p += l;
        want.push(p);
    }
    let rest = p;
    if !strict && p < n {
        want.push(n);
    }
    desc(format!("user chunker, {} bytes, strict {}, plan {:?}", n, strict, plan));
    let got = std::rc::Rc::new(std::cell::RefCell::new(vec![]));
    let x = adapt::script(adapt::Script { plan, got: got.clone() });
    drive(c, x, &data, &want, rest, strict, None)?;
    // the user's chunker has to see the data after each edge again, and nothing else
    let base = data.as_ptr() as usize;
    for (i, (a, l)) in got.borrow().iter().filter(|g| g.1 > 0).enumerate() {
        if i < calls.len() && (a - base, *l) != calls[i] {
            return Err(format!(
                "the chunker was given {} bytes at {}, should be {} at {}",
                l,
                a.wrapping_sub(base),
                calls[i].1,
                calls[i].0
            ));
        }
    }
    c.count("user chunkers", 1);
    c.count("edges", want.len() as u64);
    if want.len() > 1 {
        c.nontrivial(hash_bytes(format!("{:?}{}", want, strict).as_bytes()));
    }
    Ok(())
}

// ---------------------------------------------------------------------------------- C02 to C05

/// K2: FastCDC with a minimum of 0 and a first byte that matches
fn c02_min0(c: &mut Ctx) -> R {
    let t = if c.rng.p(1, 2) { Table64::Std } else { Table64::Made(c.rng.below(8) as u8, c.rng.below(4) as u8) };
    let normal = c.rng.range(0, 100);
    let cfg = Cfg::FastCdc { p: Some((t, 0, normal, normal + c.rng.range(1, 100))) };
    let s = setup_with(c, 3, Regime::Extreme, cfg, None);
    let mut x = s.ch.incr();
    let mut log = Log::default();
    let (mut p, mut last) = (0, 0);
    while p < s.data.len() {
        match run::push(&mut *x, &s.data[p..], &mut log)? {
            None => break,
            Some(n) => {
                p += n;
                if p == last {
                    if s.m.first(&s.data[p..p + 1], Api::Incr) == Some((0, false)) {
                        c.known("K2", describe(&s.cfg, &s.data));
                        return Ok(());
                    }
                    return Err(format!("push reported an edge at {}, where a chunk starts", p));
                }
                last = p;
            }
        }
    }
    let mut se = s.ch.search();
    run::search(&mut *se, &s.data, &[s.data.len()], false, &mut log)?;
    Ok(())
}

pub fn c02(c: &mut Ctx) -> R {
    if c.idx % 41 == 40 {
        return c02_min0(c);
    }
    let s = setup_or_mega(c);
    let (st, segs) = {
        let at = gen::hints(&s.m, &s.data, if c.rng.p(1, 2) { Api::Search } else { Api::Incr });
        s.segs(c, &at)
    };
    let mut log = Log::default();
    let mut x = s.ch.incr();
    let cuts = run::incr(&mut *x, &s.data, &segs, &mut log)?;
    let n = segs.len() as u64 + cuts.len() as u64 + 1;
    if log.calls > n {
        return Err(format!("{} pushes for {} slices and {} edges", log.calls, segs.len(), cuts.len()));
    }
    s.seen(c, st, &segs, &cuts, &log);
    let mut log = Log::default();
    let mut se = s.ch.search();
    let cuts = run::search(&mut *se, &s.data, &segs, false, &mut log)?;
    let n = segs.len() as u64 + cuts.len() as u64 + 1;
    if log.calls > n {
        return Err(format!("{} searches for {} steps and {} edges", log.calls, segs.len(), cuts.len()));
    }
    s.seen(c, st + 16, &segs, &cuts, &log);
    // nothing, at the start and later
    let (e, d) = run::find(&mut *s.ch.search(), &[], &mut log)?;
    if e.is_some() || d != 0 {
        return Err(format!("the search of an empty slice gives {:?}, {}", e, d));
    }
    run::push(&mut *s.ch.incr(), &[], &mut log)?;
    run::push(&mut *x, &[], &mut log)?;
    let strict = c.rng.p(1, 2);
    let k = run::iter(s.ch.incr(), &s.data, strict, &mut log)?;
    c.count("slices", k.len() as u64);
    Ok(())
}

pub fn c03(c: &mut Ctx) -> R {
    if c.idx / 10 % 4000 == 77 {
        return vast_case(c, (c.idx % 10) as usize, "push");
    }
    if c.idx % 2000 == 1999 {
        return long_case(c, c.idx / 2000, false, true, false);
    }
    let s = setup_or_mega(c);
    let mut log = Log::default();
    let one = run::incr(&mut *s.ch.incr(), &s.data, &[s.data.len()], &mut log)?;
    s.seen(c, 0, &[s.data.len()], &one, &log);
    let k = if s.data.len() < 2000 { 4 } else { 2 };
    for _ in 0..k {
        let (st, segs) = s.segs(c, &one);
        let mut log = Log::default();
        let cuts = run::incr(&mut *s.ch.incr(), &s.data, &segs, &mut log)?;
        eq(
            &format!("pushed in {} slices (style {}) against pushed at once", segs.len(), st),
            &cuts,
            &one,
        )?;
        s.seen(c, st, &segs, &cuts, &log);
    }
    if c.rng.p(1, 8) && s.data.len() < 20_000 {
        let segs = vec![1; s.data.len()];
        let cuts = run::incr(&mut *s.ch.incr(), &s.data, &segs, &mut log)?;
        eq("pushed byte by byte against pushed at once", &cuts, &one)?;
    }
    Ok(())
}

pub fn c04(c: &mut Ctx) -> R {
    if c.idx / 10 % 4000 == 77 {
        return vast_case(c, (c.idx % 10) as usize, "search");
    }
    if c.idx % 2000 == 1999 {
        return long_case(c, c.idx / 2000, false, false, true);
    }
    let s = setup_or_mega(c);
    let mut log = Log::default();
    let one = run::search(&mut *s.ch.search(), &s.data, &[s.data.len()], false, &mut log)?;
    s.seen(c, 0, &[s.data.len()], &one, &log);
    let k = if s.data.len() < 2000 { 4 } else { 2 };
    for _ in 0..k {
        let (st, segs) = s.segs(c, &one);
        let boxed = c.rng.p(1, 8);
        let mut log = Log::default();
        let cuts = run::search(&mut *s.ch.search(), &s.data, &segs, boxed && s.data.len() < 5000, &mut log)?;
        eq(
            &format!("buffer grown in {} steps (style {}) against all at once", segs.len(), st),
            &cuts,
            &one,
        )?;
        s.seen(c, st, &segs, &cuts, &log);
    }
    if c.rng.p(1, 8) && s.data.len() < 5_000 {
        let segs = vec![1; s.data.len()];
        let cuts = run::search(&mut *s.ch.search(), &s.data, &segs, false, &mut log)?;
        eq("buffer grown byte by byte against all at once", &cuts, &one)?;
    }
    Ok(())
}

pub fn c05(c: &mut Ctx) -> R {
    if c.idx / 10 % 4000 == 77 {
        return vast_case(c, (c.idx % 10) as usize, "all");
    }
    let s = setup_or_mega(c);
    let mut log = Log::default();
    let n = s.data.len();
    let inc = run::incr(&mut *s.ch.incr(), &s.data, &[n], &mut log)?;
    let loose = run::iter(s.ch.incr(), &s.data, false, &mut log)?;
    let strict = run::iter(s.ch.incr(), &s.data, true, &mut log)?;
    eq("the strict slice iterator against push", &strict, &inc)?;
    eq("the slice iterator against push", &loose, &ends(&inc, n))?;
    let (st, segs) = s.segs(c, &inc);
    let inc2 = run::incr(&mut *s.ch.incr(), &s.data, &segs, &mut log)?;
    let find = run::search(&mut *s.ch.search(), &s.data, &[n], false, &mut log)?;
    let find2 = run::search(&mut *s.ch.search(), &s.data, &segs, false, &mut log)?;
    s.seen(c, st, &segs, &find, &log);
    if !s.is_fast() {
        eq("edge search against push", &find, &inc)?;
        eq("resumed edge search against push", &find2, &inc)?;
        eq("edge search against push in several slices", &find, &inc2)?;
        return Ok(());
    }
    // FastCDC: chunk by chunk, see K1
    eq("push in several slices against at once", &inc2, &inc)?;
    eq("resumed edge search against at once", &find2, &find)?;
    let mut starts: Vec<usize> = vec![0];
    starts.extend(find.iter().chain(&inc).copied());
    starts.sort_unstable();
    starts.dedup();
    let max = if let Model::FastCdc { max, .. } = &s.m { *max } else { unreachable!() };
    let step = starts.len() / 60 + 1;
    for a in starts.iter().step_by(step) {
        let d = &s.data[*a..];
        // the first edge only, in slices that do not make it slow
        let d = &d[..d.len().min(max.saturating_add(2).min(1 << 22) as usize)];
        let i = run::push(&mut *s.ch.incr(), d, &mut log)?;
        let (f, _) = run::find(&mut *s.ch.search(), d, &mut log)?;
        if i == f {
            continue;
        }
        let mi = s.m.first(d, Api::Incr);
        let mf = s.m.first(d, Api::Search);
        if let (Some(i), Some(f)) = (i, f) {
            if f == i + 1 && (i as u64) < max && mi == Some((i, false)) && mf == Some((f, false)) {
                c.known("K1", describe(&s.cfg, &s.data));
                continue;
            }
        }
        return Err(format!("from the chunk start {}: push {:?}, edge search {:?}", a, i, f));
    }
    Ok(())
}

// ---------------------------------------------------------------------------------- C06 to C09

fn small_extra(c: &mut Ctx, s: &Setup) -> R {
    // things that are not about cuts: none may crash
    let room = 100_000 + s.data.len() + s.m.window().unwrap_or(0).min(1 << 24);
    arm(room);
    let mut len = s.ch.debug().len();
    let d = s.ch.dup();
    s.ch.same(&*d);
    for (_, mut x) in s.ch.incrs() {
        arm(room);
        len += x.debug().len();
        let n = c.rng.us(0, s.data.len().min(400));
        run::push(&mut *x, &s.data[..n], &mut Log::default())?;
        arm(room);
        len += x.debug().len();
        if let Some(y) = x.fork() {
            y.same(&*x);
        }
    }
    for (_, mut x) in s.ch.searches() {
        arm(room);
        len += x.debug().len();
        let n = c.rng.us(0, s.data.len().min(400));
        run::find(&mut *x, &s.data[..n], &mut Log::default())?;
        arm(room);
        len += x.debug().len();
        if let Some(y) = x.fork() {
            y.same(&*x);
        }
    }
    c.count("debug output bytes", len as u64);
    Ok(())
}

pub fn c06(c: &mut Ctx) -> R {
    if c.idx % 2000 == 1999 {
        return long_case(c, c.idx / 2000, false, true, true);
    }
    let algo = (c.idx % 10) as usize;
    let g = if c.rng.p(1, 2) { Regime::Extreme } else { regime(c, 10) };
    let mut cfg = gen::cfg(&mut c.rng, c.dict, algo, g);
    let mut data = None;
    if c.idx % 4000 < 10 {
        // long streams and huge windows
        cfg = match algo {
            0 => Cfg::Bup { window: Some(1 << 22) },
            1 => Cfg::Buz {
                k: 1 << 22,
                mask: u32::MAX,
                max: 3 << 20,
                hash: BuzH::Salt(255, Table32::Go),
            },
            4 => Cfg::Gzip { p: Some((1 << 22, u64::MAX)) },
            _ => cfg,
        };
        let n = if c.thorough { 24 << 20 } else { 6 << 20 };
        let b = c.rng.u64() as u8;
        data = Some(match c.rng.below(3) {
            0 => vec![b; n],
            1 => vec![255; n],
            _ => c.rng.bytes(n),
        });
    }
    let s = if c.idx / 10 % 400 == 33 { mega(c, algo) } else { setup_with(c, algo, g, cfg, data) };
    if c.idx % 3 == 0 {
        small_extra(c, &s)?;
    }
    let (st, segs) = s.segs(c, &[]);
    let mut log = Log::default();
    let boxed = c.rng.p(1, 2) && s.data.len() < 100_000;
    let mut x = s.ch.incr();
    let cuts = if boxed {
        run::incr_boxed(&mut *x, &s.data, &segs, &mut log)?
    } else {
        run::incr(&mut *x, &s.data, &segs, &mut log)?
    };
    s.seen(c, st, &segs, &cuts, &log);
    let mut log = Log::default();
    let mut y = s.ch.search();
    let cuts = run::search(&mut *y, &s.data, &segs, boxed && s.data.len() < 3000, &mut log)?;
    s.seen(c, st + 16, &segs, &cuts, &log);
    if c.rng.p(1, 4) {
        arm(100_000 + s.m.window().unwrap_or(0).min(1 << 24));
        let n = x.debug().len() + y.debug().len();
        c.count("debug output bytes", n as u64);
        x.fork();
        y.fork();
    }
    Ok(())
}

pub fn c07(c: &mut Ctx) -> R {
    let s = setup(c, &ALL);
    let mut y = s.ch.search();
    let mut log = Log::default();
    let n = c.rng.us(1, 60);
    let mut edges = 0;
    for _ in 0..n {
        // some slice that has nothing to do with the last one
        let len = {
            let mut ge = Gen { r: &mut c.rng, m: &s.m, dict: c.dict };
            if ge.r.p(1, 8) {
                0
            } else {
                ge.len(3000)
            }
        };
        let own;
        let d: &[u8] = if s.data.len() > len && c.rng.p(3, 4) {
            let a = c.rng.us(0, s.data.len() - len);
            &s.data[a..a + len]
        } else {
            own = c.rng.bytes(len);
            &own
        };
        let (e, disc) = run::find(&mut *y, d, &mut log)?;
        if d.is_empty() && e.is_some() && e != Some(0) {
            return Err("an edge in nothing".into());
        }
        edges += e.is_some() as u64;
        c.sit(&[4, s.algo as u64, e.is_some() as u64, (disc == 0) as u64, (disc == d.len()) as u64]);
        if c.rng.p(1, 12) {
            // under another configuration of the same algorithm
            let mut cfg = gen::cfg(&mut c.rng, c.dict, s.algo, Regime::Small);
            if let (Cfg::Buz { hash, .. }, Cfg::Buz { hash: h0, .. }) = (&mut cfg, &s.cfg) {
                *hash = h0.clone();
            }
            let other = build(&cfg, &TABLES);
            if c.rng.p(1, 2) {
                match y.under(&*other) {
                    Some(z) => {
                        y = z;
                        c.count("states moved to another configuration", 1);
                    }
                    None => y = s.ch.search(),
                }
            }
        }
    }
    c.count("abused calls", n as u64);
    c.count("edges while abused", edges);
    // from here on as it should be; edges may be arbitrary up to the next one. A zstd state
    // counts as synchronised only when its window was filled anew, which it does not know of.
    let mut g = Searcher::new();
    g.last = 0;
    let mut cuts = vec![];
    let mut base = 0;
    let mut calls = 0;
    let y0 = y.under(&*s.ch);
    let Some(mut y) = y0 else { return Ok(()) };
    while base < s.data.len() && calls < 2000 {
        calls += 1;
        let (e, disc) = run::find(&mut *y, &s.data[base..], &mut log)?;
        match e {
            None => break,
            Some(e) => {
                cuts.push(base + e);
                base += disc;
                // an edge that the stale state put where nothing was consumed, at most once
                if e == 0 && disc == 0 && calls > 2 {
                    return Err("the search does not get on".into());
                }
            }
        }
    }
    if s.algo != 7 && !cuts.is_empty() && calls < 2000 {
        let a = cuts[0];
        let mut f = s.ch.search();
        let fresh = run::search(&mut *f, &s.data[a..], &[s.data.len() - a], false, &mut log)?;
        let fresh: Vec<usize> = fresh.iter().map(|x| x + a).collect();
        eq("a state that was abused, after its next edge, against a new one", &cuts[1..], &fresh)?;
        c.count("recoveries checked", 1);
    }
    if edges > 0 {
        c.nontrivial(hash_bytes(&s.data) ^ n as u64);
    }
    c.count("calls into the library", log.calls);
    c.sample(|| format!("{}; {} unrelated slices, {} edges", describe(&s.cfg, &s.data), n, edges));
    Ok(())
}

/// Every chunk of a stream by a chunker, and a search, of its own
fn each_afresh(c: &mut Ctx, s: &Setup, all: &[usize], log: &mut Log) -> R {
    let n = s.data.len();
    if s.algo == 7 {
        return Ok(());
    }
    let w = s.m.window().unwrap_or(0).max(300);
    let many = |k: usize| k > 0 && k * w < 3_000_000;
    if many(all.len()) {
        let mut from = 0;
        for e in all {
            let mut x = s.ch.incr();
            let to = (*e + 1).min(n);
            let k = run::push(&mut *x, &s.data[from..to], log)?;
            if k != Some(e - from) {
                return Err(format!("push by a new chunker from the edge at {}: {:?}, should be {:?}", from, k, e - from));
            }
            from = *e;
        }
        c.count("chunks by a chunker of their own", all.len() as u64);
    }
    if c.rng.p(1, 2) {
        let all = run::search(&mut *s.ch.search(), &s.data, &[n], false, log)?;
        if many(all.len()) {
            let mut from = 0;
            for e in &all {
                let mut x = s.ch.search();
                let (k, _) = run::find(&mut *x, &s.data[from..(*e + 1).min(n)], log)?;
                if k != Some(e - from) {
                    return Err(format!("search by a new state from the edge at {}: {:?}, should be {:?}", from, k, e - from));
                }
                from = *e;
            }
            c.count("chunks by a search state of their own", all.len() as u64);
        }
    }
    Ok(())
}

pub fn c08(c: &mut Ctx) -> R {
    if c.idx / 10 % 4000 == 77 {
        return vast_case(c, (c.idx % 10) as usize, "after");
    }
    let s = setup(c, &ALL);
    let n = s.data.len();
    let mut log = Log::default();
    // another rest
    let rest = {
        let mut ge = Gen { r: &mut c.rng, m: &s.m, dict: c.dict };
        let k = ge.size(false).min(20_000);
        ge.data(k)
    };
    let zstd = s.algo == 7;
    // incremental
    let all = run::incr(&mut *s.ch.incr(), &s.data, &[n], &mut log)?;
    s.seen(c, 0, &[n], &all, &log);
    each_afresh(c, &s, &all, &mut log)?;
    if !all.is_empty() {
        let cut = match c.rng.below(3) {
            0 => all[0],
            1 => *all.last().unwrap(),
            _ => *c.rng.pick(&all),
        };
        let (_, segs) = s.segs(c, &all);
        let mut x = s.ch.incr();
        let (mut pos, mut at) = (0, 0);
        let mut cuts = vec![];
        for l in segs {
            // up to the edge: the slice with it goes beyond it, and the rest of it is not fed
            let e = at + l;
            if e < cut || (e == cut && !s.is_fast()) {
                run::feed(&mut *x, &s.data[at..e], &mut pos, 0, &mut cuts, &mut log)?;
            } else {
                let mut d = &s.data[at..e];
                let mut found = false;
                while !d.is_empty() {
                    match run::push(&mut *x, d, &mut log)? {
                        None => {
                            pos += d.len();
                            break;
                        }
                        Some(k) => {
                            pos += k;
                            d = &d[k..];
                            if pos == cut {
                                found = true;
                                break;
                            }
                            cuts.push(pos);
                        }
                    }
                }
                if found {
                    cuts.push(cut);
                    break;
                }
            }
            at = e;
            if cuts.last() == Some(&cut) {
                break;
            }
        }
        if cuts.last() == Some(&cut) {
            let mut f = s.ch.incr();
            if zstd {
                if cut < 32 {
                    return Err(format!("an edge at {} before the first window is full", cut));
                }
                run::push(&mut *f, &s.data[cut - 32..cut], &mut log)?;
            }
            let (_, segs) = gen::segs(&mut c.rng, rest.len(), &[], &s.params(), c.dict);
            let one = run::incr(&mut *x, &rest, &segs, &mut log)?;
            let two = run::incr(&mut *f, &rest, &[rest.len()], &mut log)?;
            eq(&format!("pushes after the edge at {} against a new chunker", cut), &one, &two)?;
            c.count("continuations", 1);
            c.count("edges in continuations", two.len() as u64);
        }
    }
    // search
    let mut y = s.ch.search();
    let (_, segs) = s.segs(c, &all);
    let all = run::search(&mut *s.ch.search(), &s.data, &[n], false, &mut log)?;
    if all.is_empty() {
        return Ok(());
    }
    let cut = *c.rng.pick(&all);
    let mut base = 0;
    let mut avail = 0;
    for l in segs {
        avail += l;
        loop {
            let (e, d) = run::find(&mut *y, &s.data[base..avail], &mut log)?;
            let at = e.map(|e| base + e);
            base += d;
            if at == Some(cut) {
                // now with other data after the edge
                if base > cut {
                    return Err(format!("discard passes the edge at {}", cut));
                }
                let mut d2 = s.data[base..cut].to_vec();
                let keep = d2.len();
                d2.extend_from_slice(&rest);
                let mut g = Searcher::new();
                g.last = keep;
                let (_, mut gs) = gen::segs(&mut c.rng, rest.len(), &[], &s.params(), c.dict);
                gs.insert(0, keep);
                for k in gs {
                    g.grow(&mut *y, &d2, k, false, &mut log)?;
                }
                let one: Vec<usize> = g.cuts.iter().map(|x| x - keep).collect();
                let mut f = s.ch.search();
                let two: Vec<usize> = if zstd {
                    let mut d3 = s.data[cut - 32..cut].to_vec();
                    d3.extend_from_slice(&rest);
                    run::search(&mut *f, &d3, &[d3.len()], false, &mut log)?
                        .iter()
                        .map(|x| x - 32)
                        .collect()
                } else {
                    run::search(&mut *f, &rest, &[rest.len()], false, &mut log)?
                };
                eq(&format!("searches after the edge at {} against a new state", cut), &one, &two)?;
                c.count("continuations", 1);
                c.count("edges in continuations", two.len() as u64);
                return Ok(());
            }
            if e.is_none() {
                break;
            }
        }
    }
    Err(format!("the edge at {} is not found when the buffer grows in steps", cut))
}

pub fn c09(c: &mut Ctx) -> R {
    let algos: &[usize] = if c.idx % 3 == 2 { &ALL } else { &[0, 1, 2, 4, 5, 7] };
    let algo = algos[((c.idx / 3) % algos.len() as u64) as usize];
    let g = regime(c, algos.len() * 3);
    let mut cfg = gen::cfg(&mut c.rng, c.dict, algo, g);
    if let Cfg::Buz { max, .. } = &mut cfg {
        if c.rng.p(3, 4) {
            *max = u64::MAX
        }
    }
    let s = setup_with(c, algo, g, cfg, None);
    let n = s.data.len();
    if n < 2 {
        return Ok(());
    }
    // another stream that shares a part with it
    let mut a = c.rng.us(0, n - 1);
    if let (Some(w), true) = (s.m.window(), c.rng.p(1, 3)) {
        // the window before some edge and little else
        let at = gen::hints(&s.m, &s.data, Api::Search);
        if !at.is_empty() {
            let e = *c.rng.pick(&at);
            a = e.saturating_sub(w + c.rng.us(0, 3)).min(n - 1);
        }
    }
    let b = if c.rng.p(2, 3) { n } else { c.rng.us(a + 1, n) };
    let mut other = {
        let mut ge = Gen { r: &mut c.rng, m: &s.m, dict: c.dict };
        match ge.r.below(5) {
            // an edit in the middle of the same stream
            0 | 1 => {
                let k = a.min(ge.r.us(0, 20));
                let mut v = s.data[..a - k].to_vec();
                let l = ge.r.us(0, 20);
                ge.piece(l, &mut v);
                v
            }
            2 => vec![],
            _ => {
                let k = ge.size(false).min(20_000);
                ge.data(k)
            }
        }
    };
    let off = other.len();
    other.extend_from_slice(&s.data[a..b]);
    let mut log = Log::default();
    for api in [Api::Search, Api::Incr] {
        let (_, s1) = s.segs(c, &[]);
        let (_, s2) = gen::segs(&mut c.rng, other.len(), &[], &s.params(), c.dict);
        let (one, two) = if api == Api::Search {
            (
                run::search(&mut *s.ch.search(), &s.data, &s1, false, &mut log)?,
                run::search(&mut *s.ch.search(), &other, &s2, false, &mut log)?,
            )
        } else {
            (
                run::incr(&mut *s.ch.incr(), &s.data, &s1, &mut log)?,
                run::incr(&mut *s.ch.incr(), &other, &s2, &mut log)?,
            )
        };
        if api == Api::Search {
            s.seen(c, 0, &s1, &one, &log);
        }
        // positions counted in the shared part, 0 is its start
        let len = b - a;
        let p1: Vec<usize> = one.iter().filter(|x| **x >= a && **x <= b).map(|x| x - a).collect();
        let p2: Vec<usize> = two.iter().filter(|x| **x >= off).map(|x| x - off).collect();
        let before = |cuts: &[usize], sh: usize, p: usize| -> usize {
            // where the chunk that has byte p-1 starts
            let i = cuts.partition_point(|x| *x < p + sh);
            if i == 0 {
                0
            } else {
                cuts[i - 1]
            }
        };
        if let Some(w) = s.m.window() {
            let forced = |cuts: &[usize], sh: usize, p: usize| -> bool {
                s.m.must_end((p + sh - before(cuts, sh, p)) as u64)
            };
            let check = |x: &[usize], xs: (&[usize], usize), y: &[usize], ys: (&[usize], usize)| -> R<u64> {
                let mut k = 0;
                for p in x {
                    if *p < w {
                        continue;
                    }
                    let l1 = p + xs.1 - before(xs.0, xs.1, *p);
                    let l2 = p + ys.1 - before(ys.0, ys.1, *p);
                    // zstd's window spans edges
                    let full = algo == 7 || (l1 >= w && l2 >= w);
                    if !full || forced(xs.0, xs.1, *p) || forced(ys.0, ys.1, *p) {
                        continue;
                    }
                    k += 1;
                    if y.binary_search(p).is_err() {
                        return Err(format!(
                            "an edge after byte {} of a common part of {} bytes is there in one stream only ({:?}), chunks {} and {} bytes, window {}",
                            p, len, api, l1, l2, w
                        ));
                    }
                }
                Ok(k)
            };
            // zstd: the window must be within the shared part, from its second byte on, since
            // the first window of a stream does not count
            let k1 = check(&p1, (&one, a), &p2, (&two, off));
            let k2 = check(&p2, (&two, off), &p1, (&one, a));
            if algo == 7 {
                // positions at which one of the streams has seen just one window are excluded
                let bad = |p: usize| p + a <= 32 || p + off <= 32;
                for (x, y) in [(&p1, &p2), (&p2, &p1)] {
                    for p in x.iter() {
                        if *p >= 32 && !bad(*p) && y.binary_search(p).is_err() {
                            return Err(format!("an edge {} bytes into the common part is in one stream only", p));
                        }
                    }
                }
                c.count("edges placed by the same window", p1.len() as u64);
            } else {
                let k = k1? + k2?;
                c.count("edges placed by the same window", k);
            }
        }
        // resynchronisation
        if algo != 7 {
            let common = p1.iter().copied().find(|p| p2.binary_search(p).is_ok());
            if let Some(p) = common {
                let r1: Vec<usize> = p1.iter().copied().filter(|x| *x > p).collect();
                let r2: Vec<usize> = p2.iter().copied().filter(|x| *x > p).collect();
                if b == n {
                    eq(&format!("edges after the common edge at {} of the common rest ({:?})", p, api), &r1, &r2)?;
                } else {
                    // edges may be seen or not right at the end (FastCDC looks one byte ahead)
                    let r1: Vec<usize> = r1.into_iter().filter(|x| *x < len).collect();
                    let r2: Vec<usize> = r2.into_iter().filter(|x| *x < len).collect();
                    eq(&format!("edges after the common edge at {} of the common part ({:?})", p, api), &r1, &r2)?;
                }
                c.count("resynchronised", 1);
                c.count("edges after resynchronisation", r1_len(&p1, p));
            }
        }
    }
    Ok(())
}
fn r1_len(p: &[usize], x: usize) -> u64 {
    p.iter().filter(|y| **y > x).count() as u64
}

// ---------------------------------------------------------------------------------- C10 to C20

pub fn c10(c: &mut Ctx) -> R {
    let algos = [3, 6, 3, 1, 9, 6];
    let algo = algos[(c.idx % 6) as usize];
    let g = regime(c, 6);
    let cfg = gen::cfg(&mut c.rng, c.dict, algo, g);
    let s = setup_with(c, algo, g, cfg, None);
    let n = s.data.len();
    let mut log = Log::default();
    let (st, segs) = s.segs(c, &[]);
    let runs = [
        ("edge search", run::search(&mut *s.ch.search(), &s.data, &segs, false, &mut log)?),
        ("push", run::incr(&mut *s.ch.incr(), &s.data, &segs, &mut log)?),
        ("slices", run::iter(s.ch.incr(), &s.data, false, &mut log)?),
        ("strict slices", run::iter(s.ch.incr(), &s.data, true, &mut log)?),
    ];
    for (what, cuts) in &runs {
        let mut a = 0;
        for e in ends(cuts, n) {
            let l = (e - a) as u64;
            let last = e == n && cuts.last() != Some(&n);
            let end_of_loose = *what == "slices" && e == n;
            if l > 0 && s.m.must_end(l - 1) {
                return Err(format!("{}: a chunk of {} bytes at {} is too long", what, l, a));
            }
            if last && s.m.must_end(l) {
                return Err(format!("{}: {} bytes at {} without an edge are too long", what, l, a));
            }
            if !last && !end_of_loose && !s.m.may_end(l) {
                return Err(format!("{}: a chunk of {} bytes at {} is too short", what, l, a));
            }
            if !last {
                let lim = s.m.must_end(l);
                c.count(if lim { "chunks at the upper limit" } else { "chunks within the limits" }, 1);
                if !s.m.may_end(l.saturating_sub(1)) {
                    c.count("chunks at the lower limit", 1);
                }
            }
            a = e;
        }
    }
    s.seen(c, st, &segs, &runs[0].1, &log);
    Ok(())
}

/// A configuration and a stream with numbers above 2^24
fn large(c: &mut Ctx, algo: usize) -> (Cfg, Vec<u8>) {
    let r = &mut c.rng;
    let b24 = 1u64 << 24;
    let w = b24 + r.range(1, 3 << 20);
    let many = w as usize + r.us(1, 300_000);
    let filled = |r: &mut Rng, b: u8, n: usize| {
        // now and then something else
        let mut v = vec![b; n];
        for _ in 0..r.below(40) {
            let i = r.us(0, n - 1);
            v[i] = r.u64() as u8;
        }
        v.extend(r.bytes(100_000));
        v
    };
    match algo {
        0 => {
            let cfg = Cfg::Bup { window: Some(w as usize) };
            let b = r.u64() as u8;
            let d = if r.p(1, 2) { filled(r, b, many) } else { r.bytes(many) };
            (cfg, d)
        }
        1 => {
            let k = if r.p(1, 2) { w as usize } else { 64 };
            let max = if r.p(1, 2) { w } else { u64::MAX };
            let cfg = Cfg::Buz { k, mask: (1u64 << r.range(16, 32)).wrapping_sub(1) as u32, max, hash: BuzH::Table(Table32::Go) };
            (cfg, r.bytes(many))
        }
        2 => (Cfg::Gear { log2: Some(r.us(20, 24)) }, r.bytes(many * 2)),
        3 => {
            let min = r.range(1, w);
            let normal = r.range(min, w + 10);
            let max = normal + r.range(1, 1000);
            (Cfg::FastCdc { p: Some((Table64::Std, min, normal, max)) }, r.bytes(many))
        }
        4 => {
            // the sum of what is in the window passes 2^32
            let m = match r.below(3) {
                0 => 255 * w - 255 * r.range(1, 20_000),
                1 => (1 << 32) + r.range(0, 5000),
                _ => r.range(1 << 22, 1 << 24),
            };
            let mut d = vec![255; many];
            d.extend(r.bytes(200_000));
            (Cfg::Gzip { p: Some((w as usize, m)) }, d)
        }
        5 => (Cfg::Pigz { bits: Some(r.range(18, 24) as u8) }, r.bytes(many * 2)),
        6 => {
            let cfg = Cfg::Zpaq(ZpaqHow::AvgRange(
                r.range(18, 32) as u8,
                Bound::Included(r.range(1, w)),
                Bound::Included(w),
            ));
            (cfg, r.bytes(many))
        }
        7 => (Cfg::Zstd { section: Some(1 << r.range(20, 24)) }, r.bytes(many)),
        8 => (Cfg::Mii { w: Some(r.range(6, 10)) }, r.bytes(many)),
        _ => {
            let cfg = Cfg::Ram { w };
            let mut d = r.bytes(many);
            if r.p(1, 2) {
                d[..w as usize].iter_mut().for_each(|b| *b = (*b).min(250));
            }
            (cfg, d)
        }
    }
}

/// the same by two hand-overs, two interfaces, or from an edge on, without regard to the definition
fn vast_case(c: &mut Ctx, algo: usize, what: &str) -> R {
    let s = vast(c, algo);
    let n = s.data.len();
    let mut log = Log::default();
    let piece = *c.rng.pick(&[1 << 16, 1 << 20, 100_000, 4096, 999]);
    let mut segs = vec![piece; n / piece];
    segs.push(n % piece);
    let got = match what {
        "push" => {
            let x = run::incr(&mut *s.ch.incr(), &s.data, &[n], &mut log)?;
            eq("pushes against one", &run::incr(&mut *s.ch.incr(), &s.data, &segs, &mut log)?, &x)?;
            x
        }
        "search" => {
            let x = run::search(&mut *s.ch.search(), &s.data, &[n], false, &mut log)?;
            eq("a growing buffer against all at once", &run::search(&mut *s.ch.search(), &s.data, &segs, false, &mut log)?, &x)?;
            x
        }
        "all" => {
            let x = run::incr(&mut *s.ch.incr(), &s.data, &[n], &mut log)?;
            eq("the strict slice iterator against push", &run::iter(s.ch.incr(), &s.data, true, &mut log)?, &x)?;
            eq("the slice iterator against push", &run::iter(s.ch.incr(), &s.data, false, &mut log)?, &ends(&x, n))?;
            if !s.is_fast() {
                eq("edge search against push", &run::search(&mut *s.ch.search(), &s.data, &[n], false, &mut log)?, &x)?;
            }
            x
        }
        _ => {
            let push = c.rng.p(1, 2);
            let x = if push {
                run::incr(&mut *s.ch.incr(), &s.data, &segs, &mut log)?
            } else {
                run::search(&mut *s.ch.search(), &s.data, &segs, false, &mut log)?
            };
            let late: Vec<usize> = x.iter().copied().filter(|e| *e > 1 << 24).collect();
            let mut from = vec![];
            for _ in 0..20 {
                if !late.is_empty() {
                    from.push(*c.rng.pick(&late));
                }
            }
            for e in from {
                let b = if algo == 7 { e - 32 } else { e };
                let end = n.min(e + 300_000);
                let d = &s.data[b..end];
                let y = if push {
                    run::incr(&mut *s.ch.incr(), d, &[d.len()], &mut log)?
                } else {
                    run::search(&mut *s.ch.search(), d, &[d.len()], false, &mut log)?
                };
                let want: Vec<usize> = y.iter().map(|k| k + b).collect();
                let have: Vec<usize> = x.iter().copied().filter(|k| *k > e && *k <= end).collect();
                // an edge at the very end of a slice may come with what follows only
                let cut = |v: Vec<usize>| v.into_iter().filter(|k| *k + 1 < end).collect::<Vec<_>>();
                eq("a chunker as it was after an edge against a new one", &cut(have), &cut(want))?;
            }
            x
        }
    };
    s.seen(c, 32, &segs[..segs.len().min(100)], &got, &log);
    c.count("streams of more than 2^24 bytes", 1);
    c.count("edges in streams of more than 2^24 bytes", got.len() as u64);
    Ok(())
}

/// A stream of more than 2^24 bytes in many chunks: what the chunker might count of all that went
/// before shows wherever an edge or a window lies across
fn vast(c: &mut Ctx, algo: usize) -> Setup {
    let n = (1 << 24) * c.rng.us(1, if c.thorough { 4 } else { 2 }) + c.rng.us(100_000, 2_000_000);
    let mut best: Option<(usize, Regime, Cfg, Vec<u8>)> = None;
    for i in 0..200 {
        let g = *c.rng.pick(&[Regime::Small, Regime::Small, Regime::Usual, Regime::Extreme]);
        let cfg = gen::cfg(&mut c.rng, c.dict, algo, g);
        let m = Model::new(&cfg);
        if m.window().map_or(false, |w| w > 3000) {
            continue;
        }
        let k = c.rng.us(20_000, 90_000);
        let mut ge = Gen { r: &mut c.rng, m: &m, dict: c.dict };
        let mut d = ge.data(k);
        if i % 2 == 0 {
            // what is common to all
            let b = c.rng.us(2, 256);
            d = (0..k).map(|_| c.rng.us(0, b - 1) as u8).collect();
        }
        let k = m.cuts(&d, Api::Search).len();
        if d.len() < 10_000 || k > d.len() / 4 {
            continue;
        }
        let cost = d.len() / (k + 1);
        if best.as_ref().map_or(true, |b| cost < b.0) {
            best = Some((cost, g, cfg, d));
        }
        if best.as_ref().map_or(false, |b| b.0 < 300) {
            break;
        }
    }
    let (_, g, cfg, d) = best.unwrap_or_else(|| {
        let cfg = gen::cfg(&mut c.rng, c.dict, algo, Regime::Usual);
        (0, Regime::Usual, cfg, c.rng.bytes(100_000))
    });
    let data = d.iter().copied().cycle().take(n).collect();
    setup_with(c, algo, g, cfg, Some(data))
}

fn conform(c: &mut Ctx, algo: usize) -> R {
    if c.idx % 8000 == 77 {
        let s = vast(c, algo);
        let n = s.data.len();
        let mut log = Log::default();
        let piece = *c.rng.pick(&[n, n, 1 << 16, 1 << 20, 100_000, 4096]);
        let mut segs = vec![piece; n / piece];
        segs.push(n % piece);
        let want = s.m.cuts(&s.data, Api::Search);
        let x = run::search(&mut *s.ch.search(), &s.data, &segs, false, &mut log)?;
        eq("edge search against the definition", &x, &want)?;
        let want = if s.is_fast() { s.m.cuts(&s.data, Api::Incr) } else { want };
        let x = run::incr(&mut *s.ch.incr(), &s.data, &segs, &mut log)?;
        eq("push against the definition", &x, &want)?;
        s.seen(c, 31, &segs[..segs.len().min(100)], &x, &log);
        c.count("streams of more than 2^24 bytes", 1);
        c.count("edges in streams of more than 2^24 bytes", x.len() as u64);
        return Ok(());
    }
    if c.idx % 13_000 == 5 {
        let (cfg, data) = large(c, algo);
        let mut s = setup_with(c, algo, Regime::Extreme, cfg, Some(data));
        let mut cuts = [s.m.cuts(&s.data, Api::Search), vec![]];
        // clearing a window this large takes milliseconds, so few edges
        if cuts[0].len() > 150 {
            cuts[0].truncate(150);
            let end = cuts[0][149];
            s.data.truncate(end + 50);
            cuts[0] = s.m.cuts(&s.data, Api::Search);
        }
        let n = s.data.len();
        cuts[1] = if s.is_fast() { s.m.cuts(&s.data, Api::Incr) } else { cuts[0].clone() };
        let (a, b) = (c.rng.us(0, n), c.rng.us(0, n));
        let segs = [a.min(b), a.max(b) - a.min(b), n - a.max(b)];
        let mut log = Log::default();
        let x = run::search(&mut *s.ch.search(), &s.data, &segs, false, &mut log)?;
        eq("edge search against the definition", &x, &cuts[0])?;
        let x = run::incr(&mut *s.ch.incr(), &s.data, &segs, &mut log)?;
        eq("push against the definition", &x, &cuts[1])?;
        s.seen(c, 30, &segs, &x, &log);
        c.count("streams with parameters above 2^24", 1);
        return Ok(());
    }
    if c.idx % 16_000 == 13 {
        let s = long_life(c, algo, c.idx / 16_000 % 3 != 1);
        let most = c.rng.us(1, 7);
        return long_with(c, &s, most, true, true, true);
    }
    if (algo == 1 || algo == 3) && c.idx % 40 == 39 {
        // tables that live no longer than their users
        let mut seen = std::collections::HashSet::new();
        for _ in 0..12 {
            let (r, at) = adapt::short_tables(|| {
                let cfg = short_cfg(c, algo);
                let s = setup_with(c, algo, Regime::Small, cfg, None);
                conform_setup(c, &s)
            });
            r?;
            for a in at {
                if !seen.insert(a) {
                    c.count("tables at the address of an earlier one", 1);
                }
            }
        }
        return Ok(());
    }
    let s = if c.idx % 800 == 207 { mega(c, algo) } else { setup(c, &[algo]) };
    conform_setup(c, &s)
}
/// a configuration with a table
fn short_cfg(c: &mut Ctx, algo: usize) -> Cfg {
    loop {
        let g = if c.rng.p(1, 4) { Regime::Usual } else { Regime::Small };
        let mut cfg = gen::cfg(&mut c.rng, c.dict, algo, g);
        let (k, s) = (c.rng.below(8) as u8, c.rng.below(4) as u8);
        match &mut cfg {
            Cfg::Buz { hash, .. } => {
                let t = if c.rng.p(1, 4) { Table32::Borg(c.rng.below(8) as u32) } else { Table32::Made(k, s) };
                *hash = match c.rng.below(4) {
                    0 => BuzH::Salt(c.rng.u64() as u8, t),
                    1 => BuzH::Buf(t),
                    _ => BuzH::Table(t),
                };
            }
            Cfg::FastCdc { p: Some(p) } => p.0 = Table64::Made(k, s),
            _ => continue,
        }
        return cfg;
    }
}
fn conform_setup(c: &mut Ctx, s: &Setup) -> R {
    let want = s.m.cuts(&s.data, Api::Search);
    let want_i =
        if s.is_fast() { s.m.cuts(&s.data, Api::Incr) } else { want.clone() };
    let mut log = Log::default();
    let n = s.data.len();
    let (st, segs) = s.segs(c, &want);
    let x = run::search(&mut *s.ch.search(), &s.data, &segs, false, &mut log)?;
    eq("edge search against the definition", &x, &want)?;
    s.seen(c, st, &segs, &x, &log);
    let mut log = Log::default();
    let (st, segs) = s.segs(c, &want_i);
    let x = run::incr(&mut *s.ch.incr(), &s.data, &segs, &mut log)?;
    eq("push against the definition", &x, &want_i)?;
    s.seen(c, st + 16, &segs, &x, &log);
    if c.rng.p(1, 4) {
        let x = run::iter(s.ch.incr(), &s.data, true, &mut log)?;
        eq("slices against the definition", &x, &want_i)?;
        let x = run::search(&mut *s.ch.search(), &s.data, &[n], false, &mut log)?;
        eq("edge search at once against the definition", &x, &want)?;
    }
    Ok(())
}

pub fn c11(c: &mut Ctx) -> R {
    if c.idx % 4 == 3 {
        return c11_digest(c);
    }
    conform(c, 0)
}
/// the rolling sum by itself, in which edges reset nothing
fn c11_digest(c: &mut Ctx) -> R {
    let g = regime(c, 4);
    let cfg = gen::cfg(&mut c.rng, c.dict, 0, g);
    let Cfg::Bup { window } = cfg else { unreachable!() };
    let s = setup_with(c, 0, g, cfg, None);
    let w = window.unwrap_or(64) as u64;
    arm(s.data.len() * 4);
    let mut r = adapt::Roll::new(window);
    let (mut p0, mut p1) = (vec![0u64], vec![0u64]);
    let base = w.wrapping_mul(w.wrapping_sub(1)).wrapping_mul(31);
    let mut splits = 0;
    let digest = |p0: &[u64], p1: &[u64]| -> u32 {
        let n = p0.len() as u64 - 1;
        let j = n.saturating_sub(w) as usize;
        let n = n as usize;
        let s1 = (w.wrapping_mul(31)).wrapping_add(p0[n] - p0[j]);
        let s2 = base
            .wrapping_add((n as u64 + 1).wrapping_mul(p0[n] - p0[j]))
            .wrapping_sub(p1[n].wrapping_sub(p1[j]));
        ((s1 as u32) << 16) | (s2 as u32 & 0xffff)
    };
    if r.digest() != digest(&p0, &p1) {
        return Err(format!("the digest of nothing is {:08x}, not {:08x}", r.digest(), digest(&p0, &p1)));
    }
    let reset_at = if c.rng.p(1, 2) { c.rng.us(0, s.data.len()) } else { usize::MAX };
    for (i, b) in s.data.iter().enumerate() {
        if i == reset_at {
            // a push that finds an edge starts anew: digest of nothing
            let mut q = vec![];
            q.extend_from_slice(&s.data[i..]);
            if let Some(k) = r.push(&q) {
                if r.digest() != digest(&[0], &[0]) {
                    return Err(format!("after an edge at {} of a push the digest is {:08x}", k, r.digest()));
                }
                c.count("digests after an edge", 1);
            }
            break;
        }
        r.byte(*b);
        let n = i as u64 + 1;
        p0.push(p0[i] + *b as u64);
        p1.push(p1[i].wrapping_add(n.wrapping_mul(*b as u64)));
        let want = digest(&p0, &p1);
        if r.digest() != want {
            return Err(format!("the digest after byte {} is {:08x}, not {:08x}", n, r.digest(), want));
        }
        if r.at_split() != (want & 0x1fff == 0x1fff) {
            return Err(format!("at_split is {} after byte {} with digest {:08x}", r.at_split(), n, want));
        }
        splits += r.at_split() as u64;
    }
    c.count("digests", s.data.len().min(reset_at) as u64);
    c.count("splits of the rolling sum", splits);
    c.nontrivial(hash_bytes(&s.data) ^ w);
    Ok(())
}
pub fn c12(c: &mut Ctx) -> R {
    if c.idx % 64 == 63 {
        // the published tables and the seeded one, entry by entry through the hash adapters:
        // with a window and mask that make each byte's hash visible in the edges
        let seed = if c.rng.p(1, 4) { *c.rng.pick(&[0, 1, u32::MAX, 1 << 31]) } else { c.rng.u64() as u32 };
        let bit = c.rng.below(32);
        let t = match c.rng.below(4) {
            0 => Table32::Go,
            1 => Table32::BorgBase,
            _ => Table32::Borg(seed),
        };
        let hash = match c.rng.below(4) {
            0 => BuzH::Buf(t),
            1 => BuzH::Salt(c.rng.u64() as u8, t),
            2 => BuzH::User(t),
            _ => BuzH::Table(t),
        };
        let cfg = Cfg::Buz { k: 1, mask: 1 << bit, max: u64::MAX, hash };
        let mut data: Vec<u8> = (0..=255).collect();
        for i in 0..256 {
            let j = c.rng.us(0, 255);
            data.swap(i, j);
        }
        let s = setup_with(c, 1, Regime::Extreme, cfg, Some(data));
        c.count("table bits read out", 256);
        return conform_setup(c, &s);
    }
    conform(c, 1)
}
pub fn c13(c: &mut Ctx) -> R {
    conform(c, 2)
}
pub fn c14(c: &mut Ctx) -> R {
    conform(c, 3)
}
pub fn c15(c: &mut Ctx) -> R {
    conform(c, 4)
}
pub fn c16(c: &mut Ctx) -> R {
    conform(c, 5)
}
pub fn c17(c: &mut Ctx) -> R {
    conform(c, 6)
}
pub fn c18(c: &mut Ctx) -> R {
    conform(c, 7)
}
pub fn c19(c: &mut Ctx) -> R {
    conform(c, 8)
}
pub fn c20(c: &mut Ctx) -> R {
    conform(c, 9)
}

// ---------------------------------------------------------------------------------------- C21

fn twins(c: &mut Ctx, algo: usize) -> (Cfg, Cfg) {
    use Bound::*;
    match algo {
        0 => (Cfg::Bup { window: None }, Cfg::Bup { window: Some(64) }),
        1 => {
            let salt = c.rng.u64() as u8;
            (
                Cfg::BuzNom { salt },
                Cfg::Buz {
                    k: 67,
                    mask: (1 << 12) - 1,
                    max: 1 << 24,
                    hash: BuzH::Salt(salt, Table32::Go),
                },
            )
        }
        2 => (Cfg::Gear { log2: None }, Cfg::Gear { log2: Some(13) }),
        3 => (
            Cfg::FastCdc { p: None },
            Cfg::FastCdc { p: Some((Table64::Std, 2048, 8192, 65536)) },
        ),
        4 => (Cfg::Gzip { p: None }, Cfg::Gzip { p: Some((8192, 4096)) }),
        5 => (Cfg::Pigz { bits: None }, Cfg::Pigz { bits: Some(12) }),
        6 => match c.rng.below(5) {
            0 => (Cfg::Zpaq(ZpaqHow::Default), Cfg::Zpaq(ZpaqHow::Pow2(16))),
            1 => (
                Cfg::Zpaq(ZpaqHow::Default),
                Cfg::Zpaq(ZpaqHow::AvgRange(16, Included(4096), Excluded(520192))),
            ),
            2 => {
                let n = c.rng.range(10, 18) as u8;
                (
                    Cfg::Zpaq(ZpaqHow::Pow2(n)),
                    Cfg::Zpaq(ZpaqHow::AvgRange(
                        n,
                        Included(64 << (n - 10)),
                        Excluded(8128 << (n - 10)),
                    )),
                )
            }
            3 => {
                let m = gen::number(&mut c.rng, c.dict, 4, 1 << 19);
                let q = 63 - (m / 4).max(1).leading_zeros();
                (
                    Cfg::Zpaq(ZpaqHow::Max(m)),
                    Cfg::Zpaq(ZpaqHow::AvgRange(q as u8, Included(m / 64), Excluded(m))),
                )
            }
            _ => {
                let mut m = gen::number(&mut c.rng, c.dict, 8, 1 << 19);
                if c.rng.p(1, 2) {
                    // where one average begins and another ends
                    m = (4u64 << c.rng.below(17)) + c.rng.below(3);
                    m = (m - 1).max(8);
                }
                let lo = match c.rng.below(3) {
                    0 => Unbounded,
                    1 => Included(c.rng.range(0, m / 4)),
                    _ => Excluded(c.rng.range(0, m / 4)),
                };
                let (lo, hi, v) = match c.rng.below(6) {
                    0 | 1 => (lo, Included(m), m),
                    2 | 3 => (lo, Excluded(m), m - 1),
                    4 => {
                        // 16 KiB to 32 times that: the average from the smallest size
                        let m = m >> 4;
                        (Included(m), Unbounded, 64 * m)
                    }
                    _ => {
                        let m = m >> 4;
                        (Excluded(m), Unbounded, 64 * (m + 1))
                    }
                };
                let q = 63 - (v / 4).max(1).leading_zeros();
                (Cfg::Zpaq(ZpaqHow::Range(lo, hi)), Cfg::Zpaq(ZpaqHow::AvgRange(q as u8, lo, hi)))
            }
        },
        7 => {
            let b = c.rng.range(20, 26);
            if c.rng.p(1, 2) {
                (Cfg::Zstd { section: None }, Cfg::Zstd { section: Some(8 << 20) })
            } else {
                // rounded down to a power of two
                (
                    Cfg::Zstd { section: Some(1 << b) },
                    Cfg::Zstd { section: Some((1 << b) + c.rng.below(1 << b)) },
                )
            }
        }
        8 => (Cfg::Mii { w: None }, Cfg::Mii { w: Some(5) }),
        _ => {
            let w = c.rng.range(0, 3000);
            (Cfg::Ram { w }, Cfg::Ram { w })
        }
    }
}

pub fn c21(c: &mut Ctx) -> R {
    let algo = (c.idx % 10) as usize;
    let mut log = Log::default();
    if c.idx < 4 {
        // the limits that the defaults document, by data that has no edges for a long time
        let (cfg, n) = match c.idx {
            0 => (Cfg::BuzNom { salt: 0 }, 35 << 20),
            1 => (Cfg::BuzNom { salt: 0xa5 }, 17 << 20),
            2 => (Cfg::Zpaq(ZpaqHow::Default), 3 << 20),
            _ => (Cfg::FastCdc { p: None }, 3 << 20),
        };
        for b in 0..=255u8 {
            let m = Model::new(&cfg);
            let probe = vec![b; 4096];
            if m.first(&probe, Api::Search).is_none() {
                let s = setup_with(c, algo, Regime::Usual, cfg, Some(vec![b; n]));
                c.count("documented limits reached", 1);
                return conform_setup(c, &s);
            }
        }
        return Ok(());
    }
    if crate::rng::mix(c.idx) % 12 == 3 {
        if let Some(cfg) = gen::beyond(&mut c.rng, algo) {
            desc(format!("{:?}", cfg));
            let must = gen::refused(&cfg);
            match crate::caught(|| Ok(build(&cfg, &TABLES))) {
                Ok(_) if must => return Err("a configuration that cannot be is not refused".into()),
                Err(e) if !must => return Err(format!("refused: {}", e)),
                Err(_) => {
                    c.count("impossible configurations refused", 1);
                    return Ok(());
                }
                Ok(_) => {
                    c.count("configurations at the ends of what can be", 1);
                    let n = c.rng.us(100, 3000);
                    let d = c.rng.bytes(n);
                    let s = setup_with(c, algo, Regime::Extreme, cfg, Some(d));
                    return conform_setup(c, &s);
                }
            }
        }
    }
    let (a, b) = if c.rng.p(1, 2) {
        twins(c, algo)
    } else {
        let g = regime(c, 10);
        let x = gen::cfg(&mut c.rng, c.dict, algo, g);
        (x.clone(), x)
    };
    let s = setup_with(c, algo, Regime::Usual, a, None);
    let n = s.data.len();
    arm(1 << 20);
    let before = s.ch.debug();
    let other = build(&b, &TABLES);
    let copy = s.ch.dup();
    let ks = (run::search(&mut *s.ch.search(), &s.data, &[n], false, &mut log)?,
        run::incr(&mut *s.ch.incr(), &s.data, &[n], &mut log)?);
    eq(
        &format!("edge search under {:?} and {:?}", s.cfg, b),
        &ks.0,
        &run::search(&mut *other.search(), &s.data, &[n], false, &mut log)?,
    )?;
    eq(
        &format!("pushes under {:?} and {:?}", s.cfg, b),
        &ks.1,
        &run::incr(&mut *other.incr(), &s.data, &[n], &mut log)?,
    )?;
    eq("edge search against the documented parameters", &ks.0, &s.m.cuts(&s.data, Api::Search))?;
    eq("push against the documented parameters", &ks.1, &s.m.cuts(&s.data, Api::Incr))?;
    for (how, mut x) in s.ch.incrs() {
        eq(&format!("a chunker by {}", how), &run::incr(&mut *x, &s.data, &[n], &mut log)?, &ks.1)?;
        c.count(how, 1);
    }
    for (how, mut x) in s.ch.searches() {
        eq(
            &format!("a search state by {}", how),
            &run::search(&mut *x, &s.data, &[n], false, &mut log)?,
            &ks.0,
        )?;
        c.count(how, 1);
    }
    if s.ch.debug() != before || s.ch.same(&*copy) == Some(false) {
        return Err("use changed the configuration".into());
    }
    s.seen(c, 0, &[n], &ks.0, &log);
    Ok(())
}

// ---------------------------------------------------------------------------------- C22 to C26

pub fn c22(c: &mut Ctx) -> R {
    if c.idx % 3 == 0 {
        return c22_threads(c);
    }
    if c.idx / 10 % 20 == 7 {
        return c22_tables(c);
    }
    // several sources, over one or two configurations, in random turns on one thread
    let k = c.rng.us(2, 5);
    let s = setup(c, &ALL);
    let mut ss = vec![s];
    for _ in 1..k {
        let t = if c.rng.p(2, 3) {
            // the same configuration, data of its own or the same
            let cfg = ss[0].cfg.clone();
            let data = match c.rng.below(3) {
                0 => Some(ss[0].data.clone()),
                _ => None,
            };
            setup_with(c, ss[0].algo, ss[0].g, cfg, data)
        } else {
            let a = c.rng.us(0, 9);
            let cfg = gen::cfg(&mut c.rng, c.dict, a, Regime::Small);
            setup_with(c, a, Regime::Small, cfg, None)
        };
        ss.push(t);
    }
    let mut log = Log::default();
    let mut want = vec![];
    for s in &ss {
        let n = s.data.len();
        want.push((
            run::incr(&mut *s.ch.incr(), &s.data, &[n], &mut log)?,
            run::search(&mut *s.ch.search(), &s.data, &[n], false, &mut log)?,
        ));
    }
    struct Src<'a> {
        x: Box<dyn Incr>,
        y: Box<dyn Search>,
        g: Searcher,
        segs: Vec<usize>,
        i: usize,
        at: usize,
        pos: usize,
        cuts: Vec<usize>,
        d: &'a [u8],
        copy: Vec<u8>,
    }
    let mut v = vec![];
    for (i, s) in ss.iter().enumerate() {
        // sources 0.. of the same configuration come from the same instance
        let ch = if s.cfg == ss[0].cfg { &ss[0].ch } else { &s.ch };
        let (_, segs) = s.segs(c, &want[i].0);
        // at an address of another alignment
        let pad = c.rng.us(0, 15);
        let mut copy = vec![0; pad];
        copy.extend_from_slice(&s.data);
        v.push(Src {
            x: ch.incr(),
            y: ch.search(),
            g: Searcher::new(),
            segs,
            i: 0,
            at: 0,
            pos: 0,
            cuts: vec![],
            d: &s.data,
            copy,
        });
    }
    let mut turns = 0u64;
    let mut order = 0u64;
    loop {
        let live: Vec<usize> = (0..v.len()).filter(|i| v[*i].i < v[*i].segs.len()).collect();
        if live.is_empty() {
            break;
        }
        let j = *c.rng.pick(&live);
        order = crate::rng::mix(order ^ j as u64);
        let s = &mut v[j];
        for _ in 0..c.rng.us(1, 3) {
            if s.i == s.segs.len() {
                break;
            }
            let l = s.segs[s.i];
            s.i += 1;
            let pad = s.copy.len() - s.d.len();
            run::feed(&mut *s.x, &s.copy[pad + s.at..pad + s.at + l], &mut s.pos, 0, &mut s.cuts, &mut log)?;
            s.g.grow(&mut *s.y, s.d, l, false, &mut log)?;
            s.at += l;
            turns += 1;
        }
    }
    for (i, s) in v.iter().enumerate() {
        eq(&format!("push of source {} of {}, interleaved, against alone", i, k), &s.cuts, &want[i].0)?;
        eq(&format!("search of source {} of {}, interleaved, against alone", i, k), &s.g.cuts, &want[i].1)?;
        c.count("edges", s.cuts.len() as u64);
    }
    c.count("interleaved turns", turns);
    c.nontrivial(order);
    c.sit(&[5, order]);
    Ok(())
}

/// An instance whose table was found at the address of one that is gone, against one that has a
/// table of its own for good
fn c22_tables(c: &mut Ctx) -> R {
    let algo = *c.rng.pick(&[1, 3]);
    let mut seen = std::collections::HashSet::new();
    for _ in 0..12 {
        let cfg = short_cfg(c, algo);
        let s = setup_with(c, algo, Regime::Small, cfg, None);
        let mut log = Log::default();
        let cuts = |ch: &dyn Chunker, segs: &[usize], log: &mut Log| -> R<(Vec<usize>, Vec<usize>)> {
            Ok((
                run::incr(&mut *ch.incr(), &s.data, segs, log)?,
                run::search(&mut *ch.search(), &s.data, segs, false, log)?,
            ))
        };
        let (_, segs) = s.segs(c, &[]);
        let (r, at) = adapt::short_tables(|| cuts(&*build(&s.cfg, &TABLES), &segs, &mut log));
        let r = r?;
        let want = cuts(&*s.ch, &segs, &mut log)?;
        eq("push with a table at a used address against one with its own", &r.0, &want.0)?;
        eq("search with a table at a used address against one with its own", &r.1, &want.1)?;
        for a in at {
            if !seen.insert(a) {
                c.count("tables at the address of an earlier one", 1);
            }
        }
        c.count("edges", want.0.len() as u64);
        if !want.0.is_empty() {
            c.nontrivial(hash_bytes(&s.data) ^ want.0.len() as u64);
        }
    }
    Ok(())
}

fn c22_threads(c: &mut Ctx) -> R {
    let algo = ((c.idx / 3) % 10) as usize;
    let g = regime(c, 30);
    let cfg = gen::cfg(&mut c.rng, c.dict, algo, g);
    let s = setup_with(c, algo, g, cfg, None);
    let mut log = Log::default();
    let k = 4;
    let mut jobs = vec![];
    for _ in 0..k {
        let data = if c.rng.p(1, 3) {
            s.data.clone()
        } else {
            let mut ge = Gen { r: &mut c.rng, m: &s.m, dict: c.dict };
            let n = ge.size(true).max(2000);
            ge.data(n)
        };
        let n = data.len();
        let own = build(&s.cfg, &TABLES);
        let want = (
            run::incr(&mut *own.incr(), &data, &[n], &mut log)?,
            run::search(&mut *own.search(), &data, &[n], false, &mut log)?,
        );
        let (_, segs) = gen::segs(&mut c.rng, n, &want.0, &s.params(), c.dict);
        jobs.push((data, want, segs));
    }
    let ch = &*s.ch;
    let start = std::sync::Barrier::new(k);
    let res: Vec<R<u64>> = std::thread::scope(|sc| {
        let hs: Vec<_> = jobs
            .iter()
            .enumerate()
            .map(|(i, (data, want, segs))| {
                let start = &start;
                let idx = c.idx;
                let d = crate::ctx::get_desc();
                sc.spawn(move || {
                    crate::ctx::set_idx(idx);
                    desc(d);
                    start.wait();
                    let r = crate::caught(|| {
                        let mut log = Log::default();
                        let x = run::incr(&mut *ch.incr(), data, segs, &mut log)?;
                        eq(&format!("push on thread {} of {} against alone", i, k), &x, &want.0)?;
                        let y = run::search(&mut *ch.search(), data, segs, false, &mut log)?;
                        eq(&format!("search on thread {} of {} against alone", i, k), &y, &want.1)?;
                        Ok(log.calls)
                    });
                    r
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or(Err("a thread was lost".into()))).collect()
    });
    for r in res {
        let n = r?;
        c.count("calls from parallel threads", n);
    }
    c.count("thread groups", 1);
    let total: usize = jobs.iter().map(|j| j.1 .0.len()).sum();
    c.count("edges", total as u64);
    if total > 0 {
        c.nontrivial(hash_bytes(&s.data) ^ total as u64);
    }
    Ok(())
}

/// Two configurations that differ in one thing, or are the same
fn near_cfg(c: &mut Ctx, x: &Cfg) -> Cfg {
    let r = &mut c.rng;
    let d = |r: &mut Rng, v: u64| -> u64 {
        let k = *r.pick(&[1, 1, 2, 3, 256, 1 << 32, 1 << 8, 1 << 16]);
        if r.p(1, 2) {
            v.saturating_add(k)
        } else {
            v.saturating_sub(k).max(1)
        }
    };
    let mut y = x.clone();
    match &mut y {
        Cfg::Bup { window } => *window = Some(d(r, window.unwrap_or(64) as u64).min(1 << 18) as usize),
        Cfg::Buz { k, mask, max, hash } => match r.below(4) {
            0 => *k = d(r, *k as u64).min(1 << 18) as usize,
            1 => *mask ^= 1 << r.below(32),
            2 => *max = d(r, *max),
            _ => {
                if let BuzH::User(t) = hash {
                    *t = Table32::Made(1, r.below(4) as u8)
                }
            }
        },
        Cfg::FastCdc { p } => {
            let (mut t, mut a, mut n, mut m) = p.unwrap_or((Table64::Std, 2048, 8192, 65536));
            match r.below(4) {
                0 => t = Table64::Made(2, r.below(4) as u8),
                1 => a = d(r, a).min(n).max(1),
                2 => n = d(r, n).clamp(a, m),
                _ => m = d(r, m).max(n).max(a + 1),
            }
            *p = Some((t, a, n, m));
        }
        Cfg::Gzip { p } => {
            let (mut w, mut m) = p.unwrap_or((8192, 4096));
            if r.p(1, 2) {
                w = d(r, w as u64).min(1 << 18) as usize
            } else {
                m = d(r, m)
            }
            *p = Some((w, m));
        }
        Cfg::Pigz { bits } => *bits = Some((d(r, bits.unwrap_or(12) as u64) as u8).min(31)),
        Cfg::Zpaq(ZpaqHow::AvgRange(n, lo, hi)) => match r.below(4) {
            0 => *n = ((*n as u64 + 1) % 33) as u8,
            1 => {
                *lo = match *lo {
                    Bound::Included(x) => Bound::Excluded(x),
                    Bound::Excluded(x) => Bound::Included(x),
                    Bound::Unbounded => Bound::Included(100),
                }
            }
            2 => {
                *hi = match *hi {
                    Bound::Included(x) => Bound::Excluded(x),
                    Bound::Excluded(x) => Bound::Included(x),
                    Bound::Unbounded => Bound::Included(1000),
                }
            }
            _ => {
                *hi = match *hi {
                    Bound::Included(x) => Bound::Included(d(r, x)),
                    Bound::Excluded(x) => Bound::Excluded(d(r, x)),
                    x => x,
                }
            }
        },
        Cfg::Zstd { section } => {
            let s = section.unwrap_or(8 << 20);
            *section = Some(if r.p(1, 2) { s.saturating_mul(2).min((1 << 52) - 1) } else { (s / 2).max(1 << 20) })
        }
        Cfg::Ram { w } => *w = d(r, *w),
        _ => {}
    }
    y
}

fn cuts_of(x: &dyn Chunker, d: &[u8], log: &mut Log) -> R<(Vec<usize>, Vec<usize>)> {
    Ok((
        run::incr(&mut *x.incr(), d, &[d.len()], log)?,
        run::search(&mut *x.search(), d, &[d.len()], false, log)?,
    ))
}

/// Histories of other lengths that look alike to the end: one thing over and over
fn recurrent(c: &mut Ctx, s: &Setup, log: &mut Log) -> R {
    let w = s.m.window().unwrap_or(1);
    if w > 20_000 {
        return Ok(());
    }
    let p = match c.rng.below(4) {
        0..=1 => 1,
        2 => c.rng.us(1, 5),
        _ => w.max(1),
    };
    let unit = if c.rng.p(1, 4) { vec![*c.rng.pick(&[0u8, 255]); p] } else { c.rng.bytes(p) };
    // both a multiple of the period and of the window's length
    let mut l = w.max(1);
    while l % p != 0 {
        l += w.max(1);
    }
    let a = c.rng.us(0, 2 * l + 40);
    let long = a + l * 8 + 100;
    let d: Vec<u8> = unit.iter().copied().cycle().take(long + 3 * w + 400).collect();
    let mut x = s.ch.incr();
    let cx = run::incr(&mut *x, &d[..a], &[a], log)?;
    let mut y = s.ch.incr();
    let mut cy = run::incr(&mut *y, &d[..a], &[a], log)?;
    let mut pos = a;
    let mut alike = 0;
    while pos < long && alike < 3 {
        let step = match c.rng.below(3) {
            0 => c.rng.us(1, 3),
            _ => l * c.rng.us(1, 2),
        };
        let e = (pos + step).min(long);
        run::feed(&mut *y, &d[pos..e], &mut pos.clone(), 0, &mut cy, log)?;
        pos = e;
        if x.same(&*y) != Some(true) {
            continue;
        }
        alike += 1;
        c.count("chunkers of other histories that are equal", 1);
        // the same further on, then something else
        let mut rest: Vec<u8> = d[a..(a + l * c.rng.us(0, 8) + c.rng.us(0, 200)).min(d.len())].to_vec();
        if c.rng.p(1, 2) {
            let params = s.params();
            let k = params.iter().copied().max().unwrap_or(0).min(8000) as usize;
            let b = rest.last().copied().unwrap_or(unit[0]);
            rest.extend(std::iter::repeat_n(b, k));
        }
        let k = c.rng.us(0, 300);
        rest.extend_from_slice(&c.rng.bytes(k));
        // both anew, as they cannot always be cloned
        let mut u = s.ch.incr();
        run::incr(&mut *u, &d[..a], &[a], log)?;
        let mut v = s.ch.incr();
        run::incr(&mut *v, &d[..pos], &[pos], log)?;
        let f = loose_feed(&mut *u, &rest, log)?;
        let g = loose_feed(&mut *v, &rest, log)?;
        eq(&format!("equal chunkers, after {} and {} bytes of a stream of period {} ({:02x?})", a, pos, p, &unit[..p.min(8)]), &g, &f)?;
    }
    let _ = cx;
    Ok(())
}

/// Two histories that differ a little, then go on alike: whenever they are equal, so is all that
/// may come.
fn near_histories(c: &mut Ctx, s: &Setup, log: &mut Log) -> R {
    let w = s.m.window().unwrap_or(1);
    if w > 2000 {
        return Ok(());
    }
    let (bx, by) = (s.ch.incr(), s.ch.search());
    let (inc, sea) = (bx.same(&*bx).is_some(), by.same(&*by).is_some());
    if !inc && !sea {
        return Ok(());
    }
    let n = match c.rng.below(4) {
        0 => c.rng.us(1, 8),
        1 => (w + c.rng.us(0, 6)).saturating_sub(3).max(1),
        2 => {
            let p = *c.rng.pick(&s.params());
            (p.min(300) as usize + c.rng.us(0, 4)).max(1)
        }
        _ => c.rng.us(1, 200),
    };
    let top = *c.rng.pick(&[1, 3, 255, 255]);
    let mut one = match c.rng.below(3) {
        0 if s.data.len() > n => {
            let a = c.rng.us(0, s.data.len() - n);
            s.data[a..a + n].to_vec()
        }
        1 => vec![c.rng.edge_byte(); n],
        _ => (0..n).map(|_| c.rng.us(0, top) as u8).collect(),
    };
    let mut two = one.clone();
    let i = n - c.rng.log(1, n as u64) as usize;
    let j = c.rng.us(i, (i + 3).min(n - 1));
    match c.rng.below(8) {
        0 => two[i] = c.rng.u64() as u8,
        1 => two[i] ^= 1 << c.rng.below(8),
        2 => two[i] = two[i].wrapping_add(c.rng.us(1, 2) as u8),
        // the sum is the same
        3 if two[i] < 255 && two[j] > 0 && i != j => {
            two[i] += 1;
            two[j] -= 1;
        }
        3 | 4 => two.swap(i, j),
        5 => {
            two.remove(i);
        }
        6 => {
            let k = c.rng.us(1, 3);
            two.drain(..k.min(n));
        }
        _ => {
            let b = if c.rng.p(1, 2) { two[i] } else { c.rng.u64() as u8 };
            two.insert(i, b)
        }
    }
    if c.rng.p(1, 8) {
        std::mem::swap(&mut one, &mut two);
    }
    let k = c.rng.us(1, 80);
    let suffix = if c.rng.p(1, 4) { vec![c.rng.edge_byte(); k] } else { c.rng.bytes(k) };
    desc(format!("{:?}; one {:02x?} two {:02x?} then {:02x?}", s.cfg, &one[..one.len().min(300)], &two[..two.len().min(300)], suffix));
    let hist = [&one, &two];
    if inc {
        let mut x = [s.ch.incr(), s.ch.incr()];
        let mut last = [0usize; 2];
        for t in 0..2 {
            last[t] = loose_feed(&mut *x[t], hist[t], log)?.last().copied().unwrap_or(0);
        }
        let mut alike = 0;
        for k in 0..=suffix.len() {
            if k > 0 {
                for t in 0..2 {
                    if let Some(e) = loose_feed(&mut *x[t], &suffix[k - 1..k], log)?.last() {
                        last[t] = hist[t].len() + k - 1 + e;
                    }
                }
            }
            if x[0].same(&*x[1]) != Some(true) {
                continue;
            }
            alike += 1;
            if alike > 4 && !c.rng.p(1, 8) {
                continue;
            }
            c.count("moments in which chunkers of nearly the same history were equal", 1);
            for q in 0..8 {
                let t = q % 2;
                let mut all = hist[t].clone();
                all.extend_from_slice(&suffix[..k]);
                let rest = onward(c, s, &all, last[t]);
                let mut got = vec![];
                for t in 0..2 {
                    let mut z = match x[t].fork() {
                        Some(z) => z,
                        None => {
                            let mut z = s.ch.incr();
                            loose_feed(&mut *z, hist[t], log)?;
                            loose_feed(&mut *z, &suffix[..k], log)?;
                            z
                        }
                    };
                    got.push(loose_feed(&mut *z, &rest, log)?);
                }
                eq(&format!("equal chunkers of nearly the same history ({} bytes alike), then {:02x?}", k, rest), &got[1], &got[0])?;
            }
        }
    }
    if sea {
        // buffers that start where the search let them, and then hold the same
        let run_to = |t: usize, k: usize, log: &mut Log| -> R<(Box<dyn Search>, Searcher, Vec<u8>)> {
            let mut all = hist[t].clone();
            all.extend_from_slice(&suffix[..k]);
            let mut y = s.ch.search();
            let mut g = Searcher::new();
            g.grow(&mut *y, &all, hist[t].len(), false, log)?;
            g.grow(&mut *y, &all, k, false, log)?;
            Ok((y, g, all))
        };
        let mut alike = 0;
        for k in 0..=suffix.len() {
            if k > 3 && !c.rng.p(1, 4) {
                continue;
            }
            let (y0, g0, all0) = run_to(0, k, log)?;
            let (y1, g1, all1) = run_to(1, k, log)?;
            if y0.same(&*y1) != Some(true) {
                continue;
            }
            alike += 1;
            if alike > 4 {
                break;
            }
            c.count("moments in which search states of nearly the same history were equal", 1);
            for q in 0..6 {
                let (g, all) = if q % 2 == 0 { (&g0, &all0) } else { (&g1, &all1) };
                let mut d = all[g.base..].to_vec();
                d.extend_from_slice(&onward(c, s, all, g.last));
                let mut got = vec![];
                for t in 0..2 {
                    let (mut y, _, _) = run_to(t, k, log)?;
                    let (mut base, mut v) = (0, vec![]);
                    while let (Some(e), di) = run::find(&mut *y, &d[base..], log)? {
                        v.push(base + e);
                        base += di;
                        if v.len() > d.len() + 2 {
                            return Err("the search does not get on".into());
                        }
                    }
                    got.push(v);
                }
                eq(&format!("equal search states of nearly the same history ({} bytes alike), then the buffer {:02x?}", k, d), &got[1], &got[0])?;
            }
        }
    }
    Ok(())
}
/// what may come after `all`, whose present chunk starts at `last`
fn onward(c: &mut Ctx, s: &Setup, all: &[u8], last: usize) -> Vec<u8> {
    let mut rest = vec![];
    if let (Model::Zstd { bits }, true) = (&s.m, c.rng.p(3, 4)) {
        // a match soon
        let k = c.rng.us(4, 36).max(33usize.saturating_sub(all.len()).max(4));
        rest = c.rng.bytes(k - 4);
        let mut w = all.to_vec();
        w.extend_from_slice(&rest);
        let w: [u8; 28] = w[w.len() - 28..].try_into().unwrap();
        match crate::model::zstd_last(*bits, &w, c.rng.u64() % 65536) {
            Some(x) if *bits < 33 => rest.extend_from_slice(&x),
            _ => (),
        }
        let k = c.rng.us(0, 40);
        rest.extend(c.rng.bytes(k));
        return rest;
    }
    let chunk = &all[last..];
    match c.rng.below(4) {
        0 => {
            let k = c.rng.us(1, 200);
            rest = vec![c.rng.u64() as u8; k];
        }
        1 => {
            let k = c.rng.us(1, 300);
            rest = c.rng.bytes(k);
        }
        _ => {
            // an edge wherever there can be one
            let mut st = Step::new(&s.m);
            for b in chunk {
                st.push(*b);
            }
            let stop = c.rng.us(1, 8);
            while rest.len() < 60 {
                let mut b = c.rng.u64() as u8;
                if rest.len() + 1 >= stop || c.rng.p(1, 4) {
                    for k in 0..=255u8 {
                        if st.probe(b.wrapping_add(k)).2 {
                            b = b.wrapping_add(k);
                            break;
                        }
                    }
                }
                rest.push(b);
                if st.push(b) {
                    st.reset();
                    if c.rng.p(1, 2) {
                        break;
                    }
                }
            }
        }
    }
    rest
}

pub fn c23(c: &mut Ctx) -> R {
    let s = setup(c, &ALL);
    let n = s.data.len();
    let mut log = Log::default();
    let rest = {
        let mut ge = Gen { r: &mut c.rng, m: &s.m, dict: c.dict };
        let k = ge.size(false).min(20_000);
        ge.data(k)
    };
    // configurations
    let dup = s.ch.dup();
    if s.ch.same(&*dup) == Some(false) {
        return Err("a clone of the configuration is not equal to it".into());
    }
    let k0 = cuts_of(&*s.ch, &s.data, &mut log)?;
    let k1 = cuts_of(&*dup, &s.data, &mut log)?;
    eq("push by a clone of the configuration", &k1.0, &k0.0)?;
    eq("search by a clone of the configuration", &k1.1, &k0.1)?;
    s.seen(c, 0, &[n], &k0.1, &log);
    let cfg2 = near_cfg(c, &s.cfg);
    let other = build(&cfg2, &TABLES);
    let same = s.ch.same(&*other);
    if same == Some(true) {
        c.count("equal configurations", 1);
        // data that tells them apart, if they are not
        let m2 = Model::new(&cfg2);
        for _ in 0..3 {
            let d = {
                let m = if c.rng.p(1, 2) { &s.m } else { &m2 };
                let mut ge = Gen { r: &mut c.rng, m, dict: c.dict };
                let k = ge.size(false);
                ge.data(k)
            };
            let a = cuts_of(&*s.ch, &d, &mut log)?;
            let b = cuts_of(&*other, &d, &mut log)?;
            eq(&format!("pushes by equal configurations, {:?} and {:?}", s.cfg, cfg2), &a.0, &b.0)?;
            eq(&format!("searches by equal configurations, {:?} and {:?}", s.cfg, cfg2), &a.1, &b.1)?;
        }
    } else if same == Some(false) {
        c.count("unequal configurations", 1);
    }
    // a chunker at some moment
    let at = c.rng.us(0, n);
    let (_, segs) = gen::segs(&mut c.rng, at, &[], &s.params(), c.dict);
    let mut x = s.ch.incr();
    run::incr(&mut *x, &s.data[..at], &segs, &mut log)?;
    if let Some(mut y) = x.fork() {
        if x.same(&*y) == Some(false) {
            return Err("a clone of the chunker is not equal to it".into());
        }
        // use of one does not affect the other
        let mut z = x.fork().unwrap();
        let junk = c.rng.us(0, 300);
        let junk = c.rng.bytes(junk);
        loose_feed(&mut *z, &junk, &mut log)?;
        let a = loose_feed(&mut *y, &rest, &mut log)?;
        loose_feed(&mut *z, &rest, &mut log)?;
        let b = loose_feed(&mut *x, &rest, &mut log)?;
        eq(&format!("a clone of the chunker at {} against the original", at), &a, &b)?;
        let mut f = s.ch.incr();
        run::incr(&mut *f, &s.data[..at], &[at], &mut log)?;
        let f = loose_feed(&mut *f, &rest, &mut log)?;
        eq(&format!("a clone of the chunker at {} against one with the same history", at), &a, &f)?;
        c.count("clones of chunkers", 1);
    }
    // equal chunkers
    {
        let mut x = s.ch.incr();
        run::incr(&mut *x, &s.data[..at], &segs, &mut log)?;
        let how = c.rng.below(4);
        recurrent(c, &s, &mut log)?;
        for _ in 0..2 {
            near_histories(c, &s, &mut log)?;
        }
        desc(describe(&s.cfg, &s.data));
        let mut y = if how == 0 { other.incr() } else { s.ch.incr() };
        let at2 = match how {
            // after the last edge
            1 => {
                let a = k0.0.iter().copied().filter(|k| *k <= at).last().unwrap_or(0);
                run::incr(&mut *y, &s.data[a..at], &[at - a], &mut log)?;
                a
            }
            2 => {
                // another byte somewhere
                let mut d = s.data[..at].to_vec();
                if !d.is_empty() {
                    let back = c.rng.log(1, d.len() as u64) as usize;
                    let i = d.len() - back;
                    d[i] = c.rng.u64() as u8;
                }
                run::incr(&mut *y, &d, &[at], &mut log)?;
                0
            }
            3 => {
                let a = c.rng.us(0, at);
                run::incr(&mut *y, &s.data[a..at], &[at - a], &mut log)?;
                a
            }
            _ => {
                run::incr(&mut *y, &s.data[..at], &[at], &mut log)?;
                0
            }
        };
        if x.same(&*y) == Some(true) {
            let d = if c.rng.p(1, 2) { &s.data[at..] } else { &rest[..] };
            let a = loose_feed(&mut *x, d, &mut log)?;
            let b = loose_feed(&mut *y, d, &mut log)?;
            eq(&format!("equal chunkers (how {}, history from 0 and from {}, {:?})", how, at2, cfg2), &a, &b)?;
            c.count("equal chunkers", 1);
            c.sit(&[6, s.algo as u64, how]);
        }
    }
    // a search state at some moment
    let mut y = s.ch.search();
    let mut g = Searcher::new();
    for l in &segs {
        g.grow(&mut *y, &s.data, *l, false, &mut log)?;
    }
    let mut d2 = s.data[g.base..at].to_vec();
    let keep = d2.len();
    d2.extend_from_slice(&rest);
    let go = |y: &mut dyn Search, log: &mut Log| -> R<Vec<usize>> {
        let mut q = Searcher::new();
        q.last = if g.last > g.base { g.last - g.base } else { 0 };
        q.grow(y, &d2, keep, false, log)?;
        q.grow(y, &d2, d2.len() - keep, false, log)?;
        Ok(q.cuts)
    };
    if let Some(mut z) = y.fork() {
        if y.same(&*z) == Some(false) {
            return Err("a clone of the search state is not equal to it".into());
        }
        let mut junk = y.fork().unwrap();
        let d3 = c.rng.bytes(200);
        run::find(&mut *junk, &d3, &mut log)?;
        let a = go(&mut *z, &mut log)?;
        let b = go(&mut *y, &mut log)?;
        eq(&format!("a clone of the search state at {} against the original", at), &a, &b)?;
        c.count("clones of search states", 1);
    }
    {
        let mut y = s.ch.search();
        let mut g1 = Searcher::new();
        for l in &segs {
            g1.grow(&mut *y, &s.data, *l, false, &mut log)?;
        }
        // the same buffer given to a state with another history that compares equal
        let mut z = s.ch.search();
        let mut d = s.data[..at].to_vec();
        match c.rng.below(3) {
            0 if !d.is_empty() => {
                let back = c.rng.log(1, d.len() as u64) as usize;
                let i = d.len() - back;
                d[i] = c.rng.u64() as u8;
            }
            1 => {
                let a = c.rng.us(0, at);
                d.drain(..a);
            }
            _ => {}
        }
        let mut g2 = Searcher::new();
        g2.grow(&mut *z, &d, d.len(), false, &mut log)?;
        if y.same(&*z) == Some(true) {
            let mut b = vec![];
            for st in [&mut y, &mut z] {
                // both get the buffer of the first
                let mut base = 0;
                let mut v = vec![];
                loop {
                    let (e, di) = run::find(&mut **st, &d2[base..], &mut log)?;
                    let Some(e) = e else { break };
                    v.push(base + e);
                    base += di;
                    if v.len() > d2.len() + 2 {
                        return Err("the search does not get on".into());
                    }
                }
                b.push(v);
            }
            eq("equal search states with the same data", &b[0], &b[1])?;
            c.count("equal search states", 1);
        }
    }
    Ok(())
}

/// edges as pushes report them, from any state (the first may be at 0)
fn loose_feed(x: &mut dyn Incr, d: &[u8], log: &mut Log) -> R<Vec<usize>> {
    let mut v = vec![];
    let mut p = 0;
    while p < d.len() {
        match run::push(x, &d[p..], log)? {
            None => break,
            Some(n) => {
                p += n;
                v.push(p);
                if v.len() > d.len() + 2 {
                    return Err("push does not get on".into());
                }
            }
        }
    }
    Ok(v)
}

pub fn c24(c: &mut Ctx) -> R {
    let algo = (c.idx % 10) as usize;
    let g = regime(c, 10);
    let mut cfg = gen::cfg(&mut c.rng, c.dict, algo, g);
    let long = (c.idx / 10) % 25 == 0;
    // thousands of chunks, of as many lengths
    let many = long && c.rng.p(1, 2);
    if many {
        let b = c.rng.range(8, 12) as u8;
        let n = 1u64 << b;
        cfg = match algo {
            1 => Cfg::Buz {
                k: c.rng.us(1, 64),
                mask: n as u32 - 1,
                max: u64::MAX,
                hash: BuzH::Table(Table32::Go),
            },
            2 => Cfg::Gear { log2: Some(b as usize) },
            3 => Cfg::FastCdc { p: Some((Table64::Std, 16, 17, u64::MAX)) },
            4 => Cfg::Gzip { p: Some((c.rng.us(16, 64), n)) },
            5 => Cfg::Pigz { bits: Some(b) },
            6 => Cfg::Zpaq(ZpaqHow::AvgRange(b, Bound::Included(n / 8), Bound::Unbounded)),
            8 => Cfg::Mii { w: Some(c.rng.range(5, 7)) },
            9 => Cfg::Ram { w: n },
            _ => cfg,
        };
    }
    let data = if long {
        let n = if c.thorough { 8 << 20 } else { 2 << 20 };
        let b = c.rng.u64() as u8;
        Some(match if many { 2 } else { c.rng.below(3) } {
            0 => vec![b; n],
            1 => {
                let m = Model::new(&cfg);
                let mut ge = Gen { r: &mut c.rng, m: &m, dict: c.dict };
                ge.data(n / 4)
            }
            _ => c.rng.bytes(n),
        })
    } else {
        None
    };
    let s = setup_with(c, algo, g, cfg, data);
    let w = s.m.look_back().max(s.m.window().unwrap_or(0)) as i64;
    let bound = 16 * 1024 + 8 * w;
    let (st, segs) = s.segs(c, &[]);
    let mut log = Log::default();
    // nothing of the monitor's own may be allocated in between
    let mut cuts = Vec::with_capacity(s.data.len() + 2);
    let a0 = alloc::live();
    alloc::reset_peak();
    let mut x = s.ch.incr();
    {
        let (mut pos, mut at) = (0, 0);
        let mut half = None;
        for l in &segs {
            if half.is_none() && at > s.data.len() / 2 {
                half = Some(alloc::peak());
            }
            run::feed(&mut *x, &s.data[at..at + l], &mut pos, 0, &mut cuts, &mut log)?;
            at += l;
        }
        let end = alloc::peak();
        if let Some(h) = half.filter(|h| end > h + 2048 + 8 * w) {
            return Err(format!(
                "a chunker for a window of {} grew by {} bytes in the second half of {} bytes of data",
                w,
                end - h,
                s.data.len()
            ));
        }
    }
    let p = alloc::peak() - a0;
    if p > bound {
        return Err(format!("a chunker for a window of {} needed {} bytes of memory in {} pushes", w, p, segs.len()));
    }
    c.count("peak memory of chunkers, summed", p.max(0) as u64);
    drop(x);
    if alloc::live() > a0 + 1024 {
        return Err(format!("a chunker left {} bytes behind", alloc::live() - a0));
    }
    let mut se = Searcher::new();
    se.cuts = Vec::with_capacity(s.data.len() + 2);
    let a0 = alloc::live();
    alloc::reset_peak();
    let mut y = s.ch.search();
    let (mut half, mut at) = (None, 0);
    for l in &segs {
        if half.is_none() && at > s.data.len() / 2 {
            half = Some(alloc::peak());
        }
        at += l;
        se.grow(&mut *y, &s.data, *l, false, &mut log)?;
    }
    let end = alloc::peak();
    if let Some(h) = half.filter(|h| end > h + 2048 + 8 * w) {
        return Err(format!(
            "a search state for a window of {} grew by {} bytes in the second half of {} bytes of data",
            w,
            end - h,
            s.data.len()
        ));
    }
    let p2 = alloc::peak() - a0;
    if p2 > bound {
        return Err(format!("a search state for a window of {} needed {} bytes of memory in {} steps", w, p2, segs.len()));
    }
    drop(y);
    let x = s.ch.incr();
    let a0 = alloc::live();
    alloc::reset_peak();
    let k = {
        arm(s.data.len() * 2);
        let mut it = x.iter(&s.data, c.idx % 20 < 10);
        let mut k = 0;
        while it.next().is_some() {
            k += 1;
        }
        k
    };
    let p3 = alloc::peak() - a0;
    if p3 > bound {
        return Err(format!("a slice iterator needed {} bytes of memory for {} slices", p3, k));
    }
    for v in [p, p2, p3] {
        c.sit(&[7, s.algo as u64, v as u64]);
    }
    s.seen(c, st, &segs, &cuts, &log);
    Ok(())
}

pub fn c25(c: &mut Ctx) -> R {
    let s = setup_or_mega(c);
    let k = if s.data.len() < 3000 { 3 } else { 1 };
    for _ in 0..k {
        let at = if c.rng.p(1, 2) { s.m.cuts(&s.data, Api::Search) } else { vec![] };
        let (st, segs) = s.segs(c, &at);
        let mut log = Log::default();
        let mut y = s.ch.search();
        let mut g = Searcher::new();
        g.look_back = Some(s.m.look_back());
        for l in &segs {
            g.grow(&mut *y, &s.data, *l, false, &mut log)?;
        }
        c.count("most bytes kept, summed over streams", log.kept as u64);
        s.seen(c, st, &segs, &g.cuts, &log);
    }
    Ok(())
}

pub fn c26(c: &mut Ctx) -> R {
    let algo = (c.idx % 10) as usize;
    let g = regime(c, 10);
    let cfg = gen::cfg(&mut c.rng, c.dict, algo, g);
    let m = Model::new(&cfg);
    // long chunks are where repeated work shows
    let data = {
        let mut ge = Gen { r: &mut c.rng, m: &m, dict: c.dict };
        let n = ge.r.us(2000, 30_000);
        match ge.r.below(4) {
            0 => {
                // as long as possible
                let mut st = gen::Step::new(&m);
                let mut v = vec![];
                ge.chunk(&mut st, n, &mut v);
                v
            }
            1 => {
                let b = ge.r.u64() as u8;
                vec![b; n]
            }
            2 => {
                let mut v = vec![];
                ge.piece(n, &mut v);
                v
            }
            _ => ge.data(n),
        }
    };
    let s = setup_with(c, algo, g, cfg, Some(data));
    let n = s.data.len() as u64;
    if n == 0 {
        return Ok(());
    }
    let mut one = Log::default();
    let k1 = run::search(&mut *s.ch.search(), &s.data, &[n as usize], false, &mut one)?;
    let mut onei = Log::default();
    let k2 = run::incr(&mut *s.ch.incr(), &s.data, &[n as usize], &mut onei)?;
    // at once: a bounded number of steps per byte and per edge; an edge may clear a window
    let w = s.m.look_back().max(s.m.window().unwrap_or(0)) as u64;
    for (what, l, k) in [("search", &one, &k1), ("push", &onei, &k2)] {
        let most = 64 * n + (600 + 8 * w) * (k.len() as u64 + 2);
        if l.steps > most {
            return Err(format!("{} of {} bytes at once took {} steps, {} edges", what, n, l.steps, k.len()));
        }
        if l.moved > 4 * n + (1000 + 8 * w) * (k.len() as u64 + 2) {
            return Err(format!("{} of {} bytes at once copied {} bytes, {} edges", what, n, l.moved, k.len()));
        }
    }
    let (st, segs) = match c.rng.below(3) {
        0 => (1, vec![1; n as usize]),
        1 => {
            let k = c.rng.us(2, 40);
            let mut v = vec![];
            let mut p = 0;
            while p < n as usize {
                let l = k.min(n as usize - p);
                v.push(l);
                p += l;
            }
            (2, v)
        }
        _ => s.segs(c, &k1),
    };
    for api in [Api::Search, Api::Incr] {
        let h0 = adapt::hash_calls();
        let mut log = Log::default();
        let (what, base, k) = if api == Api::Search {
            run::search(&mut *s.ch.search(), &s.data, &segs, false, &mut log)?;
            ("search", one.steps, k1.len() as u64)
        } else {
            run::incr(&mut *s.ch.incr(), &s.data, &segs, &mut log)?;
            ("push", onei.steps, k2.len() as u64)
        };
        let h = adapt::hash_calls() - h0;
        let most = 2 * base + 300 * log.calls + (300 + 8 * w) * (k + 1) + 16 * n;
        if log.steps > most {
            return Err(format!(
                "{} of {} bytes in {} steps took {} steps in {} calls with {} edges, at once it takes {}",
                what,
                n,
                segs.len(),
                log.steps,
                log.calls,
                k,
                base
            ));
        }
        if log.moved > 4 * n + 1000 * log.calls + (1000 + 8 * w) * (k + 2) {
            return Err(format!("{} of {} bytes in {} steps copied {} bytes, {} edges", what, n, segs.len(), log.moved, k));
        }
        c.count("bytes copied by the library", log.moved);
        // a user's own hash is called for each byte as it comes and as it leaves, or for each value
        // beforehand
        if h > 3 * n + 3 * log.calls + 300 * (k + 2) {
            return Err(format!("{} of {} bytes called the byte hash {} times", what, n, h));
        }
        c.count("library steps", log.steps);
        c.count("steps at once", base);
        c.count("byte hash calls", h);
        s.seen(c, st, &segs, if api == Api::Search { &k1 } else { &k2 }, &log);
        c.nontrivial(hash_bytes(&s.data) ^ segs.len() as u64);
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------- C28

fn one_range<T: PartialOrd + Copy + std::fmt::Debug, Rg: std::ops::RangeBounds<T> + Clone + std::fmt::Debug>(
    r: Rg,
    lo: Bound<T>,
    hi: Bound<T>,
    v: T,
) -> R {
    let s = adapt::rng::seen(r.clone(), &v);
    let under = match lo {
        Bound::Included(x) => v < x,
        Bound::Excluded(x) => v <= x,
        Bound::Unbounded => false,
    };
    let over = match hi {
        Bound::Included(x) => v > x,
        Bound::Excluded(x) => v >= x,
        Bound::Unbounded => false,
    };
    let inside = !under && !over;
    if s.under != under || s.exceeds != over || s.contains != inside {
        return Err(format!(
            "{:?} and {:?}: under_min {}, exceeds_max {}, contains {}; should be {}, {}, {}",
            r, v, s.under, s.exceeds, s.contains, under, over, inside
        ));
    }
    if std::ops::RangeBounds::contains(&r, &v) != inside {
        return Err(format!("the monitor is wrong about {:?} and {:?}", r, v));
    }
    if s.tuple != (lo, hi) || s.cloned != (lo, hi) {
        return Err(format!("the bounds of {:?} come out as {:?} and {:?}", r, s.tuple, s.cloned));
    }
    Ok(())
}

fn ranges<T: PartialOrd + Copy + std::fmt::Debug>(a: T, b: T, v: T, n: &mut u64) -> R {
    use Bound::*;
    one_range(a..b, Included(a), Excluded(b), v)?;
    one_range(a..=b, Included(a), Included(b), v)?;
    one_range(a.., Included(a), Unbounded, v)?;
    one_range(..b, Unbounded, Excluded(b), v)?;
    one_range(..=b, Unbounded, Included(b), v)?;
    one_range(.., Unbounded, Unbounded, v)?;
    for lo in [Included(a), Excluded(a), Unbounded] {
        for hi in [Included(b), Excluded(b), Unbounded] {
            one_range((lo, hi), lo, hi, v)?;
        }
    }
    for (k, hi) in [Included(a), Excluded(a), Unbounded].into_iter().enumerate() {
        one_range(adapt::rng::One(a, 2 * k as u8), Included(a), hi, v)?;
        one_range(adapt::rng::One(a, 2 * k as u8 + 1), Excluded(a), hi, v)?;
    }
    one_range(adapt::rng::Back { lo: Some(a), hi: Some(b) }, Excluded(a), Included(b), v)?;
    one_range(adapt::rng::Back { lo: Some(a), hi: None }, Excluded(a), Unbounded, v)?;
    one_range(adapt::rng::Back { lo: None, hi: Some(b) }, Unbounded, Included(b), v)?;
    *n += 24;
    Ok(())
}

pub fn c28(c: &mut Ctx) -> R {
    let mut n = 0;
    desc(format!("ranges, batch {}", c.idx));
    match c.idx % 8 {
        0..=3 => {
            // all of a small domain, in slices: bounds and values around one start
            let a = (c.idx / 8 * 4 + c.idx % 8) as u8;
            for b in 0..=255u8 {
                if b % 3 != (c.idx / 3 % 3) as u8 && b > 3 && b < 250 && b.abs_diff(a) > 3 {
                    continue;
                }
                for v in 0..=255u8 {
                    if v.abs_diff(a) <= 2 || v.abs_diff(b) <= 2 || v % 16 == 0 || v == 255 {
                        ranges(a, b, v, &mut n)?;
                        ranges(a as i8, b as i8, v as i8, &mut n)?;
                        c.nontrivial((a as u64) << 16 | (b as u64) << 8 | v as u64);
                    }
                }
            }
        }
        4 => {
            // inclusive ranges on the way to having been gone through, where the bounds are what
            // the standard library says
            for a in [0u32, 7, u32::MAX - 3] {
                for k in 0..4 {
                    let mut r = a..=a + k;
                    loop {
                        use std::ops::RangeBounds;
                        let (lo, hi) = (r.start_bound().cloned(), r.end_bound().cloned());
                        for v in [a.saturating_sub(1), a, a + k / 2, a + k, (a + k).saturating_add(1)] {
                            one_range(r.clone(), lo, hi, v)?;
                            n += 1;
                        }
                        if r.next().is_none() {
                            break;
                        }
                    }
                }
            }
            let ends = [0u64, 1, 2, u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, 1 << 32, u32::MAX as u64];
            for a in ends {
                for b in ends {
                    for v in ends {
                        ranges(a, b, v, &mut n)?;
                        ranges(a as i64, b as i64, v as i64, &mut n)?;
                        ranges(a as i32, b as i32, v as i32, &mut n)?;
                        ranges(a as u128 * 3, b as u128 * 3, v as u128 * 3, &mut n)?;
                        ranges(a as usize, b as usize, v as usize, &mut n)?;
                    }
                }
            }
        }
        5 => {
            let f = [0.0f64, -0.0, 1.5, -1.5, f64::MIN, f64::MAX, f64::INFINITY, f64::NEG_INFINITY, f64::EPSILON];
            for a in f {
                for b in f {
                    for v in f {
                        ranges(a, b, v, &mut n)?;
                        ranges(a as f32, b as f32, v as f32, &mut n)?;
                    }
                }
            }
            let t = ["", "a", "aa", "b", "B", "\u{ff}", "ab"];
            for a in t {
                for b in t {
                    for v in t {
                        ranges(a, b, v, &mut n)?;
                        ranges((a, 1u8), (b, 2), (v, 1), &mut n)?;
                    }
                }
            }
            for a in ['\0', 'a', 'z', char::MAX] {
                for b in ['\0', 'a', 'z', char::MAX] {
                    for v in ['\0', 'a', 'b', char::MAX] {
                        ranges(a, b, v, &mut n)?;
                        ranges(a > 'b', b > 'b', v > 'a', &mut n)?;
                    }
                }
            }
        }
        _ => {
            for _ in 0..200 {
                let a = gen::number(&mut c.rng, c.dict, 0, u64::MAX);
                let b = if c.rng.p(1, 2) { a.wrapping_add(c.rng.below(5)) } else { gen::number(&mut c.rng, c.dict, 0, u64::MAX) };
                let v = match c.rng.below(3) {
                    0 => a.wrapping_add(c.rng.below(3)).wrapping_sub(1),
                    1 => b.wrapping_add(c.rng.below(3)).wrapping_sub(1),
                    _ => c.rng.u64(),
                };
                ranges(a, b, v, &mut n)?;
                ranges(a as i64, b as i64, v as i64, &mut n)?;
                ranges(a as u16, b as u16, v as u16, &mut n)?;
                c.nontrivial(a ^ b.rotate_left(20) ^ v.rotate_left(40));
            }
        }
    }
    c.count("range and value pairs judged", n);
    let idx = c.idx;
    c.sample(|| format!("batch {} with {} pairs", idx, n));
    Ok(())
}

// ---------------------------------------------------------------------------------------- C29

pub fn c29(c: &mut Ctx) -> R {
    use Bound::*;
    // (configuration, expected mean, bytes)
    let mut v: Vec<(usize, Cfg, f64)> = vec![];
    for n in 4..=14u32 {
        v.push((2, Cfg::Gear { log2: Some(n as usize) }, (1u64 << n) as f64));
        v.push((5, Cfg::Pigz { bits: Some(n as u8) }, (1u64 << n) as f64));
        v.push((
            6,
            Cfg::Zpaq(ZpaqHow::AvgRange(n as u8, Included(1 << (n - 3)), Unbounded)),
            (1u64 << n) as f64 + (1u64 << (n - 3)) as f64 - 1.0,
        ));
        v.push((
            1,
            Cfg::Buz {
                k: 50,
                mask: ((1u64 << n) - 1) as u32,
                max: u64::MAX,
                hash: BuzH::Table(Table32::Go),
            },
            (1u64 << n) as f64,
        ));
        // the sums of windows must spread over the modulus
        let w = ((1u64 << n) as f64 / 74.0 * 1.2).powi(2).max(1024.0) as usize;
        v.push((4, Cfg::Gzip { p: Some((w, (1 << n) as u64 - 3)) }, (1u64 << n) as f64 - 3.0));
    }
    // fewer chunks of these
    for n in 15..=19u32 {
        v.push((2, Cfg::Gear { log2: Some(n as usize) }, (1u64 << n) as f64));
        v.push((5, Cfg::Pigz { bits: Some(n as u8) }, (1u64 << n) as f64));
        v.push((6, Cfg::Zpaq(ZpaqHow::AvgRange(n as u8, Unbounded, Unbounded)), (1u64 << n) as f64));
        let k = c.rng.us(1, 300);
        let cfg = Cfg::Buz { k, mask: ((1u64 << n) - 1) as u32, max: u64::MAX, hash: BuzH::Salt(n as u8, Table32::Go) };
        v.push((1, cfg, (1u64 << n) as f64));
    }
    for w in [64, 64, 40, 128, 100, 333] {
        v.push((0, Cfg::Bup { window: Some(w) }, 8192.0));
    }
    v.push((1, Cfg::BuzNom { salt: 7 }, 4096.0));
    v.push((2, Cfg::Gear { log2: None }, 8192.0));
    v.push((5, Cfg::Pigz { bits: None }, 4096.0));
    v.push((4, Cfg::Gzip { p: None }, 4096.0));
    for n in [10u8, 12, 14, 16] {
        v.push((6, Cfg::Zpaq(ZpaqHow::Pow2(n)), (1u64 << n) as f64 * (1.0 + 1.0 / 16.0)));
    }
    // max / 4 rounded down to a power of two, plus the minimum of max / 64
    for m in [4096u64, 65536, 10_000, 300_000] {
        let a = (1u64 << (63 - (m / 4).leading_zeros())) as f64;
        // with a cut-off at the maximum
        let (lo, hi) = ((m / 64) as f64, m as f64);
        v.push((6, Cfg::Zpaq(ZpaqHow::Max(m)), lo + a * (1.0 - (-(hi - lo) / a).exp())));
    }
    for s in [1u64 << 20, (1 << 20) + 700_000, 2 << 20, 3 << 20] {
        v.push((7, Cfg::Zstd { section: Some(s) }, (1u64 << (63 - s.leading_zeros())) as f64));
    }
    // FastCDC: geometric with 2^-15 up to normal, then 2^-11 up to max
    for p in [(2048u64, 8192u64, 65536u64), (512, 2048, 16384), (4096, 16384, 131072), (100, 6000, 20000)] {
        let (p1, p2) = (1.0 / 32768.0, 1.0 / 2048.0);
        let q1 = (1.0f64 - p1).powf((p.1 - p.0) as f64);
        let m1 = (1.0 - q1) / p1;
        let m2 = (1.0 - (1.0f64 - p2).powf((p.2 - p.1) as f64)) / p2;
        v.push((3, Cfg::FastCdc { p: Some((Table64::Std, p.0, p.1, p.2)) }, p.0 as f64 + m1 + q1 * m2));
    }
    v.push((3, Cfg::FastCdc { p: None }, 0.0));
    let k = (c.idx as usize) % v.len();
    let (algo, cfg, mut mean) = v.swap_remove(k);
    if mean == 0.0 {
        let (p1, p2) = (1.0 / 32768.0f64, 1.0 / 2048.0f64);
        let q1 = (1.0f64 - p1).powf(6144.0);
        mean = 2048.0 + (1.0 - q1) / p1 + q1 * (1.0 - (1.0f64 - p2).powf(57344.0)) / p2;
    }
    let most = if c.thorough { 400u64 << 20 } else { 96 << 20 };
    let total = ((mean * 6000.0) as u64).clamp(1 << 20, most);
    desc(format!("{:?}, {} random bytes, mean should be {:.1}", cfg, total, mean));
    c.count(ALGOS[algo], 1);
    let m = Model::new(&cfg);
    let _ = m;
    let ch = build(&cfg, &TABLES);
    let mut log = Log::default();
    let api = if c.rng.p(1, 2) { Api::Incr } else { Api::Search };
    // in blocks, to keep the memory small
    let block = 1 << 20;
    let (mut edges, mut last, mut pos) = (0u64, 0u64, 0u64);
    let (mut x, mut y) = (ch.incr(), ch.search());
    let mut keep: Vec<u8> = vec![];
    let mut sq = 0.0f64;
    while pos < total {
        let d = c.rng.bytes(block);
        if api == Api::Incr {
            let mut p = 0;
            while p < d.len() {
                match run::push(&mut *x, &d[p..], &mut log)? {
                    None => break,
                    Some(n) => {
                        p += n;
                        edges += 1;
                        let l = pos + p as u64 - last;
                        sq += (l as f64) * (l as f64);
                        last = pos + p as u64;
                    }
                }
            }
        } else {
            let k0 = keep.len();
            keep.extend_from_slice(&d);
            let mut base = 0;
            loop {
                let (e, di) = run::find(&mut *y, &keep[base..], &mut log)?;
                if let Some(e) = e {
                    edges += 1;
                    let at = pos + (base + e) as u64 - k0 as u64;
                    let l = at - last;
                    sq += (l as f64) * (l as f64);
                    last = at;
                }
                base += di;
                if e.is_none() {
                    break;
                }
            }
            keep.drain(..base);
        }
        pos += block as u64;
    }
    if edges < 8 {
        return Err(format!("{} edges in {} random bytes, the mean should be {:.1}", edges, pos, mean));
    }
    let got = last as f64 / edges as f64;
    let var = (sq / edges as f64 - got * got).max(1.0);
    // five standard errors, and a margin for what is only approximate in the expectation
    let tol = 5.5 * (var.sqrt().max(mean * 0.5) / (edges as f64).sqrt()) / mean + 0.06;
    if (got / mean - 1.0).abs() > tol {
        return Err(format!(
            "the mean chunk is {:.1} bytes over {} edges, should be {:.1} (within {:.0} %)",
            got,
            edges,
            mean,
            tol * 100.0
        ));
    }
    c.count("edges", edges);
    c.count("random bytes", pos);
    c.nontrivial(c.idx);
    c.sample(|| format!("{:?}: mean {:.1} of {} chunks, expected {:.1} within {:.0} %", cfg, got, edges, mean, tol * 100.0));
    c.sit(&[8, k as u64, (api == Api::Incr) as u64]);
    Ok(())
}

#[allow(dead_code)]
pub fn tables_sane() -> bool {
    tables::GO.len() == 256
}
