//! Drives the library the way its callers do, and checks every return value on the way.
use crate::ctx::R;
use adapt::{Incr, Search};
use std::cell::{Cell, RefCell};

/// Bounds what the next call into the library may do.
pub fn arm(len: usize) {
    probe::set_limit(probe::steps() + 100_000_000 + 4000 * len as u64);
}

thread_local! {
    /// Whether what is handed over is read into one buffer of the thread, over and over, as from
    /// a file: the same addresses hold something else at each call.
    static REUSE: Cell<bool> = const { Cell::new(false) };
    static BUF: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
}
pub fn set_reuse(on: bool) {
    REUSE.with(|r| r.set(on));
}
pub fn reuse() -> bool {
    REUSE.with(|r| r.get())
}
/// The buffer, with `d` at its front
fn read_in(d: &[u8]) -> Vec<u8> {
    let mut b = BUF.with(|b| b.take());
    if b.capacity() == 0 {
        b.reserve(1 << 21);
    }
    if b.len() < d.len() {
        b.resize(d.len(), 0);
    }
    b[..d.len()].copy_from_slice(d);
    b
}
fn put_back(b: Vec<u8>) {
    BUF.with(|x| *x.borrow_mut() = b);
}

#[derive(Default, Clone, Debug)]
pub struct Log {
    pub calls: u64,
    pub empty: u64,
    pub bytes: u64,
    /// most bytes that a caller of the search had to keep
    pub kept: usize,
    pub steps: u64,
    /// bytes that the library copied
    pub moved: u64,
}

pub fn push(c: &mut dyn Incr, d: &[u8], log: &mut Log) -> R<Option<usize>> {
    arm(d.len());
    let (s, m) = (probe::steps(), probe::moved());
    let r = c.push(d);
    log.steps += probe::steps() - s;
    log.moved += probe::moved() - m;
    log.calls += 1;
    log.bytes += r.unwrap_or(d.len()) as u64;
    if let Some(n) = r {
        if n > d.len() {
            return Err(format!("push returned {} for a slice of {} bytes", n, d.len()));
        }
        if d.is_empty() {
            return Err("push returned an edge for an empty slice".into());
        }
    }
    Ok(r)
}

/// All of one slice, which starts at `pos`; edges go to `cuts`. A chunk is open since
/// `cuts.last()`, or since `from`.
pub fn feed(
    c: &mut dyn Incr,
    d: &[u8],
    pos: &mut usize,
    from: usize,
    cuts: &mut Vec<usize>,
    log: &mut Log,
) -> R {
    if reuse() {
        let b = read_in(d);
        let r = feed_from(c, &b[..d.len()], pos, from, cuts, log);
        put_back(b);
        return r;
    }
    feed_from(c, d, pos, from, cuts, log)
}

fn feed_from(
    c: &mut dyn Incr,
    mut d: &[u8],
    pos: &mut usize,
    from: usize,
    cuts: &mut Vec<usize>,
    log: &mut Log,
) -> R {
    if d.is_empty() {
        push(c, d, log)?;
        log.empty += 1;
        return Ok(());
    }
    while !d.is_empty() {
        match push(c, d, log)? {
            None => {
                *pos += d.len();
                break;
            }
            Some(n) => {
                let cut = *pos + n;
                if cut <= cuts.last().copied().unwrap_or(from) {
                    return Err(format!("push reported an edge at {}, where a chunk starts", cut));
                }
                cuts.push(cut);
                *pos = cut;
                d = &d[n..];
            }
        }
    }
    Ok(())
}

pub fn incr(c: &mut dyn Incr, data: &[u8], segs: &[usize], log: &mut Log) -> R<Vec<usize>> {
    let mut cuts = vec![];
    let (mut pos, mut at) = (0, 0);
    for l in segs {
        let s = &data[at..at + l];
        feed(c, s, &mut pos, 0, &mut cuts, log)?;
        at += l;
    }
    Ok(cuts)
}

/// as `incr`, but each slice is in a place of its own, with nothing behind it
pub fn incr_boxed(c: &mut dyn Incr, data: &[u8], segs: &[usize], log: &mut Log) -> R<Vec<usize>> {
    let mut cuts = vec![];
    let (mut pos, mut at) = (0, 0);
    for l in segs {
        let s: Box<[u8]> = data[at..at + l].into();
        feed(c, &s, &mut pos, 0, &mut cuts, log)?;
        at += l;
    }
    Ok(cuts)
}

/// one call of the search, `cut` is where the chunk starts in the coordinates of `d`
pub fn find(s: &mut dyn Search, d: &[u8], log: &mut Log) -> R<(Option<usize>, usize)> {
    arm(d.len());
    let (n, m) = (probe::steps(), probe::moved());
    let (c, disc) = s.find(d);
    log.steps += probe::steps() - n;
    log.moved += probe::moved() - m;
    log.calls += 1;
    if disc > d.len() {
        return Err(format!("the search lets discard {} of {} bytes", disc, d.len()));
    }
    if let Some(c) = c {
        if c > d.len() {
            return Err(format!("the search reports an edge at {} in {} bytes", c, d.len()));
        }
    }
    Ok((c, disc))
}

pub struct Searcher {
    pub base: usize,
    pub avail: usize,
    pub cuts: Vec<usize>,
    pub last: usize,
    /// (length given, edge, discard) of calls are checked against this when set: the look-back
    pub look_back: Option<usize>,
}
impl Searcher {
    pub fn new() -> Self {
        Searcher { base: 0, avail: 0, cuts: vec![], last: 0, look_back: None }
    }
    /// `n` more bytes of `data` are there. Finds all edges in what there is.
    pub fn grow(&mut self, s: &mut dyn Search, data: &[u8], n: usize, boxed: bool, log: &mut Log) -> R {
        self.avail += n;
        log.bytes += n as u64;
        if n == 0 {
            log.empty += 1;
        }
        if reuse() && !boxed {
            // what is left moves to the front of the buffer, what is new comes behind it
            let at = self.base;
            let b = read_in(&data[at..self.avail]);
            let r = self.find_all(s, &b[..self.avail - at], at, false, log);
            put_back(b);
            return r;
        }
        self.find_all(s, data, 0, boxed, log)
    }
    /// `data` starts at `at`
    fn find_all(&mut self, s: &mut dyn Search, data: &[u8], at: usize, boxed: bool, log: &mut Log) -> R {
        loop {
            let own: Box<[u8]>;
            let mut d = &data[self.base - at..self.avail - at];
            if boxed {
                own = d.into();
                d = &own;
            }
            let (c, disc) = find(s, d, log)?;
            match c {
                Some(c) => {
                    let cut = self.base + c;
                    if cut <= self.last {
                        return Err(format!(
                            "the search reported an edge at {}, where a chunk starts (edges so far {})",
                            cut,
                            self.cuts.len()
                        ));
                    }
                    if disc > c {
                        return Err(format!(
                            "the search lets discard {} bytes, past the edge at {}",
                            disc, c
                        ));
                    }
                    if d.is_empty() {
                        return Err("the search reported an edge in an empty slice".into());
                    }
                    if let Some(k) = self.look_back {
                        if disc + k < c {
                            return Err(format!(
                                "an edge at {} in {} bytes, but only {} may be discarded",
                                c,
                                d.len(),
                                disc
                            ));
                        }
                    }
                    self.cuts.push(cut);
                    self.last = cut;
                    self.base += disc;
                }
                None => {
                    if let Some(k) = self.look_back {
                        if disc + k < d.len() {
                            return Err(format!(
                                "no edge in {} bytes, but only {} may be discarded",
                                d.len(),
                                disc
                            ));
                        }
                    }
                    self.base += disc;
                    log.kept = log.kept.max(self.avail - self.base);
                    break;
                }
            }
        }
        Ok(())
    }
}

pub fn search(s: &mut dyn Search, data: &[u8], segs: &[usize], boxed: bool, log: &mut Log) -> R<Vec<usize>> {
    let mut g = Searcher::new();
    for l in segs {
        g.grow(s, data, *l, boxed, log)?;
    }
    Ok(g.cuts)
}

/// Cuts by the slice iterator; checks that the slices are the data.
pub fn iter(c: Box<dyn Incr>, data: &[u8], strict: bool, log: &mut Log) -> R<Vec<usize>> {
    arm(data.len());
    let mut it = c.iter(data, strict);
    let mut pos = 0;
    let mut cuts = vec![];
    loop {
        arm(data.len() - pos);
        let n = probe::steps();
        let s = it.next();
        log.steps += probe::steps() - n;
        log.calls += 1;
        let Some(s) = s else { break };
        let off = (s.as_ptr() as usize).wrapping_sub(data.as_ptr() as usize);
        if off != pos || s.len() > data.len() - pos {
            return Err(format!(
                "slice {} is at {} with {} bytes, the last one ended at {} of {}",
                cuts.len(),
                off as isize,
                s.len(),
                pos,
                data.len()
            ));
        }
        if s.is_empty() {
            return Err(format!("slice {} is empty, at {}", cuts.len(), pos));
        }
        pos += s.len();
        cuts.push(pos);
    }
    log.bytes += data.len() as u64;
    if strict {
        let (_, r) = it.parts();
        let off = (r.as_ptr() as usize).wrapping_sub(data.as_ptr() as usize);
        if r.len() != data.len() - pos || (!r.is_empty() && off != pos) {
            return Err(format!("{} bytes are left after {} of {}", r.len(), pos, data.len()));
        }
    } else if pos != data.len() {
        return Err(format!("the slices end at {} of {}", pos, data.len()));
    }
    Ok(cuts)
}

/// what differs first
pub fn diff(a: &[usize], b: &[usize]) -> String {
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    format!(
        "edge {}: {:?} against {:?} ({} and {} edges; the edge before is {:?})",
        i,
        a.get(i),
        b.get(i),
        a.len(),
        b.len(),
        if i > 0 { Some(a[i - 1]) } else { None }
    )
}
