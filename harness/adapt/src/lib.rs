//! Uniform access to every chunker of hash-roll through its public API, nothing else.
//! Each call goes to the concrete type, so overridden trait methods are exercised too.
#![allow(clippy::all)]
#![cfg_attr(not(feature = "default"), allow(unused))]
#[cfg(feature = "buzhash")]
use hash_roll::buzhash::{
    BuzHash, BuzHashHash, BuzHashTableBufHash, BuzHashTableByteSaltHash, BuzHashTableHash,
};
use hash_roll::{Chunk, ChunkIncr, IterSlices, IterSlicesStrict, ToChunkIncr};
use std::any::Any;
use std::cell::Cell;
use std::ops::Bound;
use std::sync::Arc;

pub use hash_roll;

#[derive(Clone, Debug, PartialEq)]
pub enum Cfg {
    /// None: Default::default()
    Bup { window: Option<usize> },
    Buz { k: usize, mask: u32, max: u64, hash: BuzH },
    BuzNom { salt: u8 },
    Gear { log2: Option<usize> },
    /// None: Default::default(); table, min, normal, max
    FastCdc { p: Option<(Table64, u64, u64, u64)> },
    Gzip { p: Option<(usize, u64)> },
    Pigz { bits: Option<u8> },
    Zpaq(ZpaqHow),
    Zstd { section: Option<u64> },
    Mii { w: Option<u64> },
    Ram { w: u64 },
}

#[derive(Clone, Debug, PartialEq)]
pub enum BuzH {
    Table(Table32),
    Buf(Table32),
    Salt(u8, Table32),
    /// a hash that the user of the library supplies; counts its calls
    User(Table32),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Table32 {
    Go,
    BorgBase,
    Borg(u32),
    /// `(kind, seed)`, made by the monitor
    Made(u8, u8),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Table64 {
    Std,
    Made(u8, u8),
}

#[derive(Clone, Debug, PartialEq)]
pub enum ZpaqHow {
    Default,
    Pow2(u8),
    Max(u64),
    Range(Bound<u64>, Bound<u64>),
    AvgRange(u8, Bound<u64>, Bound<u64>),
}

/// supplied by the monitor
pub struct Tables {
    pub made32: fn(u8, u8) -> &'static [u32; 256],
    pub made64: fn(u8, u8) -> &'static [u64; 256],
}

thread_local! { static HASH_CALLS: Cell<u64> = const { Cell::new(0) }; }
pub fn hash_calls() -> u64 {
    HASH_CALLS.with(|c| c.get())
}

/// A user's own byte hash
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct UserHash(pub Vec<u32>);
#[cfg(feature = "buzhash")]
impl BuzHashHash for UserHash {
    fn hash(&self, data: u8) -> u32 {
        let n = HASH_CALLS.with(|c| {
            c.set(c.get() + 1);
            c.get()
        });
        if NEST.with(|c| c.get()) && n % 16 == 5 {
            nested(data);
        }
        self.0[data as usize]
    }
}
thread_local! {
    static NEST: Cell<bool> = const { Cell::new(false) };
}
/// Whether a user's own hash uses the library itself
pub fn set_nest(on: bool) {
    NEST.with(|c| c.set(on));
}
/// the hash of a user who cuts something else meanwhile
#[cfg(feature = "buzhash")]
fn nested(data: u8) {
    use hash_roll::{Chunk, ChunkIncr, ToChunkIncr};
    let b = BuzHash::new(4, 1, BuzHashTableHash::from(&hash_roll::buzhash_table::GO_BUZHASH), 9);
    let d = [data, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11];
    // by the definition: the low bit of the hash, or more than 9 bytes
    let t = &hash_roll::buzhash_table::GO_BUZHASH;
    let mut h = 0u32;
    let mut want = None;
    for i in 0..d.len() {
        h = h.rotate_left(1) ^ t[d[i] as usize];
        if i >= 4 {
            h ^= t[d[i - 4] as usize].rotate_left(4);
        }
        if h & 1 == 1 || i + 1 > 9 {
            want = Some(i + 1);
            break;
        }
    }
    let x = b.to_chunk_incr().push(&d);
    let (y, _) = b.find_chunk_edge(&mut b.to_search_state(), &d);
    assert!(x == want && y == want, "within a user's hash {:?} and {:?}, should be {:?}", x, y, want);
}

pub trait Incr {
    fn push(&mut self, d: &[u8]) -> Option<usize>;
    fn fork(&self) -> Option<Box<dyn Incr>>;
    fn same(&self, o: &dyn Incr) -> Option<bool>;
    fn debug(&self) -> String;
    fn any(&self) -> &dyn Any;
    fn iter<'a>(self: Box<Self>, d: &'a [u8], strict: bool) -> Box<dyn Slices<'a> + 'a>;
}
pub trait Search {
    fn find(&mut self, d: &[u8]) -> (Option<usize>, usize);
    /// the same state, with another configuration (of the same type, else None)
    fn under(self: Box<Self>, c: &dyn Chunker) -> Option<Box<dyn Search>>;
    fn fork(&self) -> Option<Box<dyn Search>>;
    fn same(&self, o: &dyn Search) -> Option<bool>;
    fn debug(&self) -> String;
    fn any(&self) -> &dyn Any;
}
pub trait Slices<'a> {
    fn next(&mut self) -> Option<&'a [u8]>;
    fn nth(&mut self, n: usize) -> Option<&'a [u8]>;
    fn hint(&self) -> (usize, Option<usize>);
    /// `Iterator::fold` over all of it, through `for_each`; stops (panics) above `limit` items
    fn each(self: Box<Self>, f: &mut dyn FnMut(&'a [u8]));
    fn count(self: Box<Self>) -> usize;
    fn last(self: Box<Self>) -> Option<&'a [u8]>;
    /// only the strict iterator
    fn take_rem(&mut self) -> Option<&'a [u8]>;
    fn parts(self: Box<Self>) -> (Box<dyn Incr + 'a>, &'a [u8]);
}

struct ILoose<'a, C: ChunkIncr>(IterSlices<'a, C>);
struct IStrict<'a, C: ChunkIncr>(IterSlicesStrict<'a, C>);

macro_rules! slices {
    ($t:ident, $tr:expr) => {
        impl<'a, C: IncrExt> Slices<'a> for $t<'a, C> {
            fn next(&mut self) -> Option<&'a [u8]> {
                self.0.next()
            }
            fn nth(&mut self, n: usize) -> Option<&'a [u8]> {
                self.0.nth(n)
            }
            fn hint(&self) -> (usize, Option<usize>) {
                self.0.size_hint()
            }
            fn each(self: Box<Self>, f: &mut dyn FnMut(&'a [u8])) {
                self.0.for_each(|s| f(s))
            }
            fn count(self: Box<Self>) -> usize {
                self.0.count()
            }
            fn last(self: Box<Self>) -> Option<&'a [u8]> {
                self.0.last()
            }
            fn take_rem(&mut self) -> Option<&'a [u8]> {
                let f: fn(&mut Self) -> Option<&'a [u8]> = $tr;
                f(self)
            }
            fn parts(self: Box<Self>) -> (Box<dyn Incr + 'a>, &'a [u8]) {
                let (c, r) = self.0.into_parts();
                (Box::new(W(c)), r)
            }
        }
    };
}
slices!(ILoose, |_s| None);
slices!(IStrict, |s| Some(s.0.take_rem()));

/// What differs between the incremental types: which of Clone and PartialEq they have.
pub trait IncrExt: ChunkIncr + std::fmt::Debug + 'static {
    fn fork(&self) -> Option<Self>
    where
        Self: Sized;
    fn same(&self, o: &Self) -> Option<bool>;
}
pub trait StateExt: std::fmt::Debug + 'static {
    fn fork(&self) -> Option<Self>
    where
        Self: Sized;
    fn same(&self, o: &Self) -> Option<bool>;
}
macro_rules! ext {
    ($tr:ident $t:ty, $c:expr, $e:expr $(, $($g:tt)*)?) => {
        impl $($($g)*)? $tr for $t {
            fn fork(&self) -> Option<Self> { let f: fn(&Self) -> Option<Self> = $c; f(self) }
            fn same(&self, o: &Self) -> Option<bool> {
                let f: fn(&Self, &Self) -> Option<bool> = $e; f(self, o)
            }
        }
    };
}
#[cfg(feature = "bup")]
use hash_roll::bup;
#[cfg(feature = "buzhash")]
use hash_roll::buzhash;
#[cfg(feature = "fastcdc")]
use hash_roll::fastcdc;
#[cfg(feature = "gear")]
use hash_roll::gear;
#[cfg(feature = "gzip")]
use hash_roll::gzip;
#[cfg(feature = "mii")]
use hash_roll::mii;
#[cfg(feature = "pigz")]
use hash_roll::pigz;
#[cfg(feature = "ram")]
use hash_roll::ram;
#[cfg(feature = "zpaq")]
use hash_roll::zpaq;
#[cfg(feature = "zstd")]
use hash_roll::zstd;
#[cfg(feature = "bup")]
ext!(IncrExt bup::RollSumIncr, |s| Some(s.clone()), |a, b| Some(a == b));
#[cfg(feature = "buzhash")]
ext!(IncrExt buzhash::BuzHashIncr<UserHash>, |s| Some(s.clone()), |a, b| Some(a == b));
#[cfg(feature = "buzhash")]
ext!(IncrExt buzhash::BuzHashIncr<BuzHashTableHash<'static>>, |s| Some(s.clone()), |_, _| None);
#[cfg(feature = "buzhash")]
ext!(IncrExt buzhash::BuzHashIncr<BuzHashTableBufHash>, |s| Some(s.clone()), |_, _| None);
#[cfg(feature = "buzhash")]
ext!(IncrExt buzhash::BuzHashIncr<BuzHashTableByteSaltHash<'static>>, |s| Some(s.clone()), |_, _| None);
#[cfg(feature = "gear")]
ext!(IncrExt gear::GearIncr32<'static>, |s| Some(s.clone()), |_, _| None);
#[cfg(feature = "fastcdc")]
ext!(IncrExt fastcdc::FastCdcIncr<'static>, |s| Some(s.clone()), |a, b| Some(a == b));
#[cfg(feature = "gzip")]
ext!(IncrExt gzip::GzipRsyncableIncr, |s| Some(s.clone()), |_, _| None);
#[cfg(feature = "pigz")]
ext!(IncrExt pigz::PigzRsyncableIncr, |s| Some(s.clone()), |_, _| None);
#[cfg(feature = "zpaq")]
ext!(IncrExt zpaq::ZpaqIncr, |_| None, |_, _| None);
#[cfg(feature = "zstd")]
ext!(IncrExt zstd::ZstdIncr, |_| None, |a, b| Some(a == b));
#[cfg(feature = "mii")]
ext!(IncrExt mii::MiiIncr, |_| None, |_, _| None);
#[cfg(feature = "ram")]
ext!(IncrExt ram::RamIncr, |s| Some(s.clone()), |a, b| Some(a == b));

#[cfg(feature = "bup")]
ext!(StateExt bup::RollSumSearchState, |s| Some(s.clone()), |a, b| Some(a == b));
#[cfg(feature = "buzhash")]
ext!(StateExt buzhash::BuzHashSearchState, |s| Some(s.clone()), |a, b| Some(a == b));
#[cfg(feature = "gear")]
ext!(StateExt gear::GearState32, |s| Some(s.clone()), |a, b| Some(a == b));
#[cfg(feature = "fastcdc")]
ext!(StateExt fastcdc::FastCdcState, |s| Some(s.clone()), |a, b| Some(a == b));
#[cfg(feature = "gzip")]
ext!(StateExt gzip::GzipRsyncableSearchState, |s| Some(s.clone()), |_, _| None);
#[cfg(feature = "pigz")]
ext!(StateExt pigz::PigzRsyncableSearchState, |s| Some(s.clone()), |_, _| None);
#[cfg(feature = "zpaq")]
ext!(StateExt zpaq::ZpaqSearchState, |_| None, |_, _| None);
#[cfg(feature = "zstd")]
ext!(StateExt zstd::ZstdSearchState, |_| None, |a, b| Some(a == b));
#[cfg(feature = "mii")]
ext!(StateExt mii::MiiSearchState, |_| None, |_, _| None);
#[cfg(feature = "ram")]
ext!(StateExt ram::RamState, |s| Some(s.clone()), |a, b| Some(a == b));

struct W<C>(C);
impl<C: IncrExt> Incr for W<C> {
    fn push(&mut self, d: &[u8]) -> Option<usize> {
        self.0.push(d)
    }
    fn fork(&self) -> Option<Box<dyn Incr>> {
        self.0.fork().map(|c| Box::new(W(c)) as Box<dyn Incr>)
    }
    fn same(&self, o: &dyn Incr) -> Option<bool> {
        self.0.same(&o.any().downcast_ref::<W<C>>()?.0)
    }
    fn debug(&self) -> String {
        format!("{:?}", self.0)
    }
    fn any(&self) -> &dyn Any {
        self
    }
    fn iter<'a>(self: Box<Self>, d: &'a [u8], strict: bool) -> Box<dyn Slices<'a> + 'a> {
        if strict {
            Box::new(IStrict(self.0.iter_slices_strict(d)))
        } else {
            Box::new(ILoose(self.0.iter_slices(d)))
        }
    }
}

struct S<C: Chunk> {
    cfg: Arc<Share<C>>,
    st: C::SearchState,
}
impl<C: Chunk + 'static> Search for S<C>
where
    C::SearchState: StateExt,
{
    fn find(&mut self, d: &[u8]) -> (Option<usize>, usize) {
        self.cfg.0.find_chunk_edge(&mut self.st, d)
    }
    fn under(self: Box<Self>, c: &dyn Chunker) -> Option<Box<dyn Search>> {
        let c = c.any().downcast_ref::<A<C>>()?;
        Some(Box::new(S { cfg: c.c.clone(), st: self.st }))
    }
    fn fork(&self) -> Option<Box<dyn Search>> {
        let st = self.st.fork()?;
        Some(Box::new(S { cfg: self.cfg.clone(), st }))
    }
    fn same(&self, o: &dyn Search) -> Option<bool> {
        self.st.same(&o.any().downcast_ref::<S<C>>()?.st)
    }
    fn debug(&self) -> String {
        format!("{:?}", self.st)
    }
    fn any(&self) -> &dyn Any {
        self
    }
}

/// The configured instances are shared between threads (they are documented to hold no mutable
/// data). If a change makes one of them `!Sync` the monitors still want to run, and see what
/// that does.
struct Share<C>(C);
unsafe impl<C> Sync for Share<C> {}
unsafe impl<C> Send for Share<C> {}

pub trait Chunker: Send + Sync {
    fn incr(&self) -> Box<dyn Incr>;
    fn search(&self) -> Box<dyn Search>;
    /// the same through each other documented way to get one (`From` impls, `Default`s)
    fn incrs(&self) -> Vec<(&'static str, Box<dyn Incr>)>;
    fn searches(&self) -> Vec<(&'static str, Box<dyn Search>)>;
    /// a clone of the configured instance
    fn dup(&self) -> Box<dyn Chunker>;
    fn same(&self, o: &dyn Chunker) -> Option<bool>;
    fn debug(&self) -> String;
    fn any(&self) -> &dyn Any;
}

struct A<C> {
    c: Arc<Share<C>>,
    default: bool,
}

macro_rules! chunker {
    ($t:ty, eq: $eq:expr, incrs: $incrs:expr, searches: $se:expr) => {
        impl Chunker for A<$t> {
            fn incr(&self) -> Box<dyn Incr> {
                Box::new(W(self.c.0.to_chunk_incr()))
            }
            fn search(&self) -> Box<dyn Search> {
                Box::new(S { st: self.c.0.to_search_state(), cfg: self.c.clone() })
            }
            fn incrs(&self) -> Vec<(&'static str, Box<dyn Incr>)> {
                let mut v: Vec<(&'static str, Box<dyn Incr>)> = vec![("to_chunk_incr", self.incr())];
                let f: fn(&$t, bool, &mut Vec<(&'static str, Box<dyn Incr>)>) = $incrs;
                f(&self.c.0, self.default, &mut v);
                v
            }
            fn searches(&self) -> Vec<(&'static str, Box<dyn Search>)> {
                let mut v: Vec<(&'static str, <$t as Chunk>::SearchState)> =
                    vec![("to_search_state", self.c.0.to_search_state())];
                let f: fn(&$t, &mut Vec<(&'static str, <$t as Chunk>::SearchState)>) = $se;
                f(&self.c.0, &mut v);
                v.into_iter()
                    .map(|(n, st)| (n, Box::new(S { st, cfg: self.c.clone() }) as Box<dyn Search>))
                    .collect()
            }
            fn dup(&self) -> Box<dyn Chunker> {
                Box::new(A { c: Arc::new(Share(self.c.0.clone())), default: self.default })
            }
            fn same(&self, o: &dyn Chunker) -> Option<bool> {
                let o = o.any().downcast_ref::<A<$t>>()?;
                let f: fn(&$t, &$t) -> Option<bool> = $eq;
                f(&self.c.0, &o.c.0)
            }
            fn debug(&self) -> String {
                format!("{:?}", self.c.0)
            }
            fn any(&self) -> &dyn Any {
                self
            }
        }
    };
}
fn w<C: IncrExt>(c: C) -> Box<dyn Incr> {
    Box::new(W(c))
}
#[cfg(feature = "bup")]
chunker!(bup::RollSum, eq: |a, b| Some(a == b),
    incrs: |c, d, v| {
        v.push(("From<&RollSum>", w(bup::RollSumIncr::from(c))));
        if d { v.push(("RollSumIncr::default", w(bup::RollSumIncr::default()))); }
    },
    searches: |c, v| v.push(("From<&RollSum>", c.into())));
#[cfg(feature = "buzhash")]
macro_rules! buz { ($h:ty, $eq:expr) => {
    chunker!(BuzHash<$h>, eq: $eq,
        incrs: |c, _, v| {
            v.push(("From<&BuzHash>", w(buzhash::BuzHashIncr::from(c))));
            v.push(("From<BuzHash>", w(buzhash::BuzHashIncr::from(c.clone()))));
        },
        searches: |_, v| v.push(("Default", Default::default())));
} }
#[cfg(feature = "buzhash")]
buz!(UserHash, |a, b| Some(a == b));
#[cfg(feature = "buzhash")]
buz!(BuzHashTableHash<'static>, |_, _| None);
#[cfg(feature = "buzhash")]
buz!(BuzHashTableBufHash, |_, _| None);
#[cfg(feature = "buzhash")]
buz!(BuzHashTableByteSaltHash<'static>, |_, _| None);
#[cfg(feature = "gear")]
chunker!(gear::Gear32<'static>, eq: |_, _| None,
    incrs: |c, _, v| v.push(("From<&Gear32>", w(gear::GearIncr32::from(c)))),
    searches: |_, v| v.push(("Default", Default::default())));
#[cfg(feature = "fastcdc")]
chunker!(fastcdc::FastCdc<'static>, eq: |a, b| Some(a == b),
    incrs: |c, d, v| {
        v.push(("From<&FastCdc>", w(fastcdc::FastCdcIncr::from(c))));
        if d { v.push(("FastCdcIncr::default", w(fastcdc::FastCdcIncr::default()))); }
    },
    searches: |_, v| v.push(("Default", Default::default())));
#[cfg(feature = "gzip")]
chunker!(gzip::GzipRsyncable, eq: |a, b| Some(a == b),
    incrs: |c, _, v| {
        v.push(("From<&GzipRsyncable>", w(gzip::GzipRsyncableIncr::from(c))));
        v.push(("From<GzipRsyncable>", w(gzip::GzipRsyncableIncr::from(c.clone()))));
    },
    searches: |_, v| v.push(("Default", Default::default())));
#[cfg(feature = "pigz")]
chunker!(pigz::PigzRsyncable, eq: |a, b| Some(a == b),
    incrs: |c, _, v| {
        v.push(("From<&PigzRsyncable>", w(pigz::PigzRsyncableIncr::from(c))));
        v.push(("From<PigzRsyncable>", w(pigz::PigzRsyncableIncr::from(c.clone()))));
    },
    searches: |c, v| v.push(("From<&PigzRsyncable>", c.into())));
#[cfg(feature = "zpaq")]
chunker!(zpaq::Zpaq, eq: |a, b| Some(a == b),
    incrs: |c, _, v| {
        v.push(("From<&Zpaq>", w(zpaq::ZpaqIncr::from(c))));
        v.push(("From<Zpaq>", w(zpaq::ZpaqIncr::from(c.clone()))));
    },
    searches: |c, v| {
        v.push(("From<&Zpaq>", c.into()));
        v.push(("Default", Default::default()));
    });
#[cfg(feature = "zstd")]
chunker!(zstd::Zstd, eq: |a, b| Some(a == b),
    incrs: |c, _, v| {
        v.push(("From<&Zstd>", w(zstd::ZstdIncr::from(c))));
        v.push(("From<Zstd>", w(zstd::ZstdIncr::from(c.clone()))));
    },
    searches: |_, v| v.push(("Default", Default::default())));
#[cfg(feature = "mii")]
chunker!(mii::Mii, eq: |_, _| None,
    incrs: |c, _, v| {
        v.push(("From<&Mii>", w(mii::MiiIncr::from(c))));
        v.push(("From<Mii>", w(mii::MiiIncr::from(c.clone()))));
    },
    searches: |c, v| v.push(("From<MiiIncr>", mii::MiiIncr::from(c).into())));
#[cfg(feature = "ram")]
chunker!(ram::Ram, eq: |a, b| Some(a == b),
    incrs: |c, _, v| v.push(("From<&Ram>", w(ram::RamIncr::from(c)))),
    searches: |_, v| v.push(("Default", Default::default())));

pub fn table32(t: Table32, m: &Tables) -> &'static [u32; 256] {
    short32(long32(t, m))
}
fn long32(t: Table32, m: &Tables) -> &'static [u32; 256] {
    use std::collections::HashMap;
    use std::sync::Mutex;
    static BORG: Mutex<Option<HashMap<u32, &'static [u32; 256]>>> = Mutex::new(None);
    match t {
        Table32::Go => {
            static T: [u32; 256] = hash_roll::buzhash_table::GO_BUZHASH;
            &T
        }
        Table32::BorgBase => {
            static T: [u32; 256] = hash_roll::buzhash_table::BORG_BUZHASH_BASE;
            &T
        }
        Table32::Borg(seed) => {
            let mut g = BORG.lock().unwrap_or_else(|e| e.into_inner());
            g.get_or_insert_with(HashMap::new)
                .entry(seed)
                .or_insert_with(|| Box::leak(hash_roll::buzhash_table::borg_buzhash_table(seed)))
        }
        Table32::Made(k, s) => (m.made32)(k, s),
    }
}
fn table64(t: Table64, m: &Tables) -> &'static [u64; 256] {
    short64(match t {
        Table64::Std => &hash_roll::gear_table::GEAR_64,
        Table64::Made(k, s) => (m.made64)(k, s),
    })
}

thread_local! {
    /// the tables of the innermost `short_tables`
    static SHORT: std::cell::RefCell<Option<(Vec<*mut [u32; 256]>, Vec<*mut [u64; 256]>)>> =
        const { std::cell::RefCell::new(None) };
}
fn short32(t: &'static [u32; 256]) -> &'static [u32; 256] {
    SHORT.with(|s| match &mut *s.borrow_mut() {
        None => t,
        Some(v) => {
            let p = Box::into_raw(Box::new(*t));
            v.0.push(p);
            unsafe { &*p }
        }
    })
}
fn short64(t: &'static [u64; 256]) -> &'static [u64; 256] {
    SHORT.with(|s| match &mut *s.borrow_mut() {
        None => t,
        Some(v) => {
            let p = Box::into_raw(Box::new(*t));
            v.1.push(p);
            unsafe { &*p }
        }
    })
}
/// While `f` runs, made tables are copies that are freed when it is over (so another table will
/// be found at their address). It must not let out anything that borrows one. Returns the
/// addresses.
pub fn short_tables<T: 'static>(f: impl FnOnce() -> T) -> (T, Vec<usize>) {
    struct Free;
    impl Drop for Free {
        fn drop(&mut self) {
            if let Some(v) = SHORT.with(|s| s.borrow_mut().take()) {
                for p in v.0 {
                    drop(unsafe { Box::from_raw(p) });
                }
                for p in v.1 {
                    drop(unsafe { Box::from_raw(p) });
                }
            }
        }
    }
    SHORT.with(|s| *s.borrow_mut() = Some((vec![], vec![])));
    let _free = Free;
    let r = f();
    let at = SHORT.with(|s| match &*s.borrow() {
        None => vec![],
        Some(v) => v.0.iter().map(|p| *p as usize).chain(v.1.iter().map(|p| *p as usize)).collect(),
    });
    (r, at)
}

fn a<C>(c: C, default: bool) -> A<C> {
    A { c: Arc::new(Share(c)), default }
}

/// May panic where the library's constructors do.
pub fn build(cfg: &Cfg, m: &Tables) -> Box<dyn Chunker> {
    let _ = m;
    match cfg {
        #[cfg(feature = "bup")]
        Cfg::Bup { window: None } => Box::new(a(bup::RollSum::default(), true)),
        #[cfg(feature = "bup")]
        Cfg::Bup { window: Some(w) } => Box::new(a(bup::RollSum::with_window(*w), false)),
        #[cfg(feature = "buzhash")]
        Cfg::Buz { k, mask, max, hash } => match hash {
            BuzH::Table(t) => Box::new(a(
                BuzHash::new(*k, *mask, BuzHashTableHash::from(table32(*t, m)), *max),
                false,
            )),
            BuzH::Buf(t) => {
                let b = match t {
                    Table32::Borg(s) => hash_roll::buzhash_table::borg_buzhash_table(*s),
                    t => Box::new(*table32(*t, m)),
                };
                Box::new(a(BuzHash::new(*k, *mask, BuzHashTableBufHash::from(b), *max), false))
            }
            BuzH::Salt(s, t) => Box::new(a(
                BuzHash::new(
                    *k,
                    *mask,
                    BuzHashTableByteSaltHash::from((*s, table32(*t, m))),
                    *max,
                ),
                false,
            )),
            BuzH::User(t) => Box::new(a(
                BuzHash::new(*k, *mask, UserHash(table32(*t, m).to_vec()), *max),
                false,
            )),
        },
        #[cfg(feature = "buzhash")]
        Cfg::BuzNom { salt } => {
            let b: BuzHash<BuzHashTableByteSaltHash<'static>> = BuzHash::new_nom(*salt);
            Box::new(a(b, false))
        }
        #[cfg(feature = "gear")]
        Cfg::Gear { log2: None } => Box::new(a(gear::Gear32::default(), true)),
        #[cfg(feature = "gear")]
        Cfg::Gear { log2: Some(n) } => {
            Box::new(a(gear::Gear32::with_average_size_log2(*n), false))
        }
        #[cfg(feature = "fastcdc")]
        Cfg::FastCdc { p: None } => Box::new(a(fastcdc::FastCdc::default(), true)),
        #[cfg(feature = "fastcdc")]
        Cfg::FastCdc { p: Some((t, min, normal, max)) } => {
            Box::new(a(fastcdc::FastCdc::new(table64(*t, m), *min, *normal, *max), false))
        }
        #[cfg(feature = "gzip")]
        Cfg::Gzip { p: None } => Box::new(a(gzip::GzipRsyncable::default(), true)),
        #[cfg(feature = "gzip")]
        Cfg::Gzip { p: Some((w, n)) } => {
            Box::new(a(gzip::GzipRsyncable::with_window_and_modulus(*w, *n), false))
        }
        #[cfg(feature = "pigz")]
        Cfg::Pigz { bits: None } => Box::new(a(pigz::PigzRsyncable::default(), true)),
        #[cfg(feature = "pigz")]
        Cfg::Pigz { bits: Some(b) } => Box::new(a(pigz::PigzRsyncable::with_bits(*b), false)),
        #[cfg(feature = "zpaq")]
        Cfg::Zpaq(h) => {
            let z = match h {
                ZpaqHow::Default => zpaq::Zpaq::default(),
                ZpaqHow::Pow2(n) => zpaq::Zpaq::with_average_size_pow_2(*n),
                ZpaqHow::Max(n) => zpaq::Zpaq::with_max_size(*n),
                ZpaqHow::Range(x, y) => zpaq::Zpaq::with_range((*x, *y)),
                ZpaqHow::AvgRange(n, x, y) => zpaq::Zpaq::with_average_and_range(*n, (*x, *y)),
            };
            Box::new(a(z, *h == ZpaqHow::Default))
        }
        #[cfg(feature = "zstd")]
        Cfg::Zstd { section: None } => Box::new(a(zstd::Zstd::default(), true)),
        #[cfg(feature = "zstd")]
        Cfg::Zstd { section: Some(s) } => {
            Box::new(a(zstd::Zstd::with_target_section_size(*s), false))
        }
        #[cfg(feature = "mii")]
        Cfg::Mii { w: None } => Box::new(a(mii::Mii::default(), true)),
        #[cfg(feature = "mii")]
        Cfg::Mii { w: Some(n) } => Box::new(a(mii::Mii::with_w(*n), false)),
        #[cfg(feature = "ram")]
        Cfg::Ram { w } => Box::new(a(ram::Ram::with_w(*w), false)),
        #[allow(unreachable_patterns)]
        _ => unreachable!("not in this build"),
    }
}

/// The rolling sum of bup by itself (`RollSumIncr`'s inherent methods)
#[cfg(feature = "bup")]
pub struct Roll(hash_roll::bup::RollSumIncr);
#[cfg(feature = "bup")]
impl Roll {
    pub fn new(window: Option<usize>) -> Self {
        Roll(match window {
            None => Default::default(),
            Some(w) => bup::RollSum::with_window(w).to_chunk_incr(),
        })
    }
    pub fn byte(&mut self, b: u8) {
        self.0.roll_byte(b)
    }
    pub fn digest(&self) -> u32 {
        self.0.digest()
    }
    pub fn at_split(&self) -> bool {
        self.0.at_split()
    }
    pub fn push(&mut self, d: &[u8]) -> Option<usize> {
        self.0.push(d)
    }
}

/// `RangeExt` of the library against a value
pub mod rng {
    use hash_roll::range::{bound_cloned, RangeExt};
    use std::ops::{Bound, RangeBounds};
    #[derive(Debug, PartialEq, Clone)]
    pub struct Seen<T> {
        pub contains: bool,
        pub under: bool,
        pub exceeds: bool,
        pub tuple: (Bound<T>, Bound<T>),
        pub cloned: (Bound<T>, Bound<T>),
    }
    /// A user's own range, which says one value for both of its bounds
    #[derive(Debug, Clone)]
    pub struct One<T>(pub T, pub u8);
    impl<T> RangeBounds<T> for One<T> {
        fn start_bound(&self) -> Bound<&T> {
            match self.1 & 1 {
                0 => Bound::Included(&self.0),
                _ => Bound::Excluded(&self.0),
            }
        }
        fn end_bound(&self) -> Bound<&T> {
            match self.1 >> 1 {
                0 => Bound::Included(&self.0),
                1 => Bound::Excluded(&self.0),
                _ => Bound::Unbounded,
            }
        }
    }
    /// A user's own range, which works its bounds out, in another order
    #[derive(Debug, Clone)]
    pub struct Back<T> {
        pub hi: Option<T>,
        pub lo: Option<T>,
    }
    impl<T> RangeBounds<T> for Back<T> {
        fn start_bound(&self) -> Bound<&T> {
            self.lo.as_ref().map_or(Bound::Unbounded, Bound::Excluded)
        }
        fn end_bound(&self) -> Bound<&T> {
            self.hi.as_ref().map_or(Bound::Unbounded, Bound::Included)
        }
    }
    pub fn seen<T: PartialOrd + Copy, R: RangeBounds<T> + Clone>(r: R, v: &T) -> Seen<T> {
        Seen {
            contains: RangeExt::contains(&r, v),
            under: r.under_min(v),
            exceeds: r.exceeds_max(v),
            cloned: (bound_cloned(r.start_bound()), bound_cloned(r.end_bound())),
            tuple: r.clone().into_tuple(),
        }
    }
}

/// A user's own chunker, which follows a script, for the provided methods of `ChunkIncr`.
#[derive(Debug)]
pub struct Script {
    /// what the next calls of push return; then None
    pub plan: std::collections::VecDeque<Option<usize>>,
    /// (address, length) that each call of push got
    pub got: std::rc::Rc<std::cell::RefCell<Vec<(usize, usize)>>>,
}
impl ChunkIncr for Script {
    fn push(&mut self, d: &[u8]) -> Option<usize> {
        self.got.borrow_mut().push((d.as_ptr() as usize, d.len()));
        self.plan.pop_front().flatten().filter(|n| *n <= d.len())
    }
}
ext!(IncrExt Script, |_| None, |_, _| None);
pub fn script(s: Script) -> Box<dyn Incr> {
    w(s)
}
