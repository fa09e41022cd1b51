//! Replays on the real code: searches for an input on which a property fails, and counts what it looked at.
//! Built for one module of the crate at a time (a feature per module, and per property of circular_buffer).
//! usage: native PROP --tier quick|thorough --seed N [--case K]
#[cfg(feature = "circular_buffer")]
#[allow(dead_code)]
mod circular_buffer;
#[cfg(feature = "counter")]
mod counter;
mod cx;
#[cfg(any(feature = "counter", feature = "disjoint_set"))]
mod keys;
#[cfg(feature = "disjoint_set")]
mod disjoint_set;
#[cfg(feature = "interval")]
mod interval;
mod stdlib;
use cx::Cx;

#[global_allocator]
static ALLOC: cx::Poison = cx::Poison;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
    let prop = a[1].clone();
    let tier = get("--tier").unwrap_or("thorough".into());
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let only = get("--case").and_then(|s| s.parse().ok());
    if let Some(h) = get("--hints") { cx::set_hints(&h); }
    std::panic::set_hook(Box::new(|_| {}));
    let mut cx = Cx::new(&prop, &tier, seed, only, get("--trace"));
    let known = match prop.as_str() {
        #[cfg(feature = "interval")]
        p if p.starts_with('I') => interval::run(p, &mut cx),
        #[cfg(feature = "disjoint_set")]
        p if p.starts_with('D') => disjoint_set::run(p, &mut cx),
        #[cfg(feature = "circular_buffer")]
        p if p.starts_with('C') => circular_buffer::run(p, &mut cx),
        #[cfg(feature = "counter")]
        p if p.starts_with('K') => counter::run(p, &mut cx),
        p => stdlib::run(p, &mut cx),
    };
    if !known { eprintln!("no such property"); std::process::exit(2); }
    cx.finish();
}
