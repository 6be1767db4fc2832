//! feat digest ...: the cuts of numbered cases, in whatever build this is.
#![allow(dead_code)]
#[path = "../../src/digest.rs"]
mod digest;
#[path = "../../src/gen.rs"]
mod gen;
#[path = "../../src/model.rs"]
mod model;
#[path = "../../src/rng.rs"]
mod rng;
#[path = "../../src/run.rs"]
mod run;
#[path = "../../src/tables.rs"]
mod tables;
#[path = "../../src/zpool.rs"]
mod zpool;
mod ctx {
    pub type R<T = ()> = Result<T, String>;
}

mod tiny;

thread_local! {
    static PANIC: std::cell::RefCell<String> = Default::default();
    pub static WHERE: std::cell::RefCell<String> = Default::default();
}

pub fn caught<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))
        .unwrap_or_else(|_| Err(PANIC.with(|p| format!("panic {}", p.borrow()))))
}

fn main() {
    std::panic::set_hook(Box::new(|i| PANIC.with(|p| *p.borrow_mut() = i.to_string())));
    let a: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    std::process::exit(match a.first() {
        Some(&"digest") if a.len() >= 5 => digest::main(&a[1..]),
        Some(&"tiny") if a.len() >= 4 => tiny::main(&a[1..]),
        _ => 2,
    })
}
