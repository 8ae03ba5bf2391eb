mod alloc;
mod cogen;
mod ctx;
mod flat;
mod lex;
mod msg;
mod mutate;
mod normal;
#[cfg(feature = "arb")]
mod p_arb;
mod p_codec;
mod p_frag;
mod p_msg;
mod p_neg;
mod p_quirk;
mod p_robust;
mod p_seq;
mod p_session;
#[cfg(feature = "serde")]
mod p_serde;
mod p_text;
mod p_types;
mod rng;
#[cfg(any(feature = "serde", feature = "arb"))]
mod scan;
mod wire;

use std::{
    cell::RefCell,
    fs,
    os::unix::fs::FileExt,
    panic::{AssertUnwindSafe, catch_unwind},
    sync::{
        Arc,
        atomic::{AtomicBool, AtomicU64, Ordering},
    },
    time::{Duration, Instant},
};

use ctx::Ctx;
use rng::mix;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

/// A property monitor.
pub struct Prop {
    pub id: &'static str,
    /// Enumerated part, run once (by shard 0).
    pub fixed: Option<fn(&mut Ctx)>,
    /// Randomised part; the seed determines the case completely.
    pub case: fn(&mut Ctx, u64),
    /// Cases over all shards.
    pub quick: u64,
    pub thorough: u64,
}

fn props() -> Vec<Prop> {
    let mut v = Vec::new();
    #[cfg(feature = "arb")]
    v.extend(p_arb::props());
    v.extend(p_codec::props());
    v.extend(p_frag::props());
    v.extend(p_session::props());
    v.extend(p_msg::props());
    v.extend(p_quirk::props());
    v.extend(p_robust::props());
    v.extend(p_seq::props());
    #[cfg(feature = "serde")]
    v.extend(p_serde::props());
    v.extend(p_text::props());
    v.extend(p_types::props());
    v
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned()
}

/// Index journaled while the enumerated part runs.
const FIXED: u64 = u64::MAX;

fn run_one(ctx: &mut Ctx, p: &Prop, idx: u64) {
    ctx.index = idx;
    ctx.current.clear();
    let seed = mix(mix(ctx.seed ^ rng::fnv(p.id.as_bytes())) ^ mix(ctx.shard.wrapping_mul(0x1_0000_0001) ^ mix(idx)));
    let r = catch_unwind(AssertUnwindSafe(|| {
        if idx == FIXED {
            if let Some(f) = p.fixed {
                f(ctx)
            }
        } else {
            (p.case)(ctx, seed)
        }
    }));
    if r.is_err() {
        let input = std::mem::take(&mut ctx.current);
        ctx.fail("panic", format!("panicked: {}", last_panic()), &input);
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let all = props();
    if args.len() < 3 {
        for p in &all {
            println!("{}", p.id);
        }
        return;
    }
    #[cfg(feature = "taggen")]
    if args[1] == "tags" {
        p_msg::print_tags();
        return;
    }
    let id = args[2].clone();
    let p = all.into_iter().find(|p| p.id == id).expect("unknown property");
    std::panic::set_hook(Box::new(|i| {
        let s = i.to_string();
        LAST_PANIC.with(|p| *p.borrow_mut() = s);
    }));
    let get = |n: &str, d: u64| arg(&args, n).map(|v| v.parse().unwrap()).unwrap_or(d);
    let mut ctx = Ctx::new(p.id);
    ctx.thorough = arg(&args, "--tier").as_deref() == Some("thorough");
    ctx.seed = get("--seed", 1);
    ctx.shard = get("--shard", 0);
    ctx.shards = get("--shards", 1);
    let total = get("--cases", if ctx.thorough { p.thorough } else { p.quick });
    let secs = get("--secs", 100000);
    let mode = args[1].clone();

    let progress = Arc::new(AtomicU64::new(0));
    let done = Arc::new(AtomicBool::new(false));
    let journal = arg(&args, "--journal").map(|j| fs::File::create(j).unwrap());
    let out = arg(&args, "--out");
    let one = get("--index", 0);
    let (pr, dn) = (progress.clone(), done.clone());
    // The default stack of a spawned thread: 2 MiB.
    let worker = std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || {
            let t0 = Instant::now();
            if mode == "replay" {
                ctx.replay = true;
                run_one(&mut ctx, &p, one);
            } else {
                let go = |ctx: &mut Ctx, idx: u64| {
                    if let Some(j) = &journal {
                        let _ = j.write_at(&idx.to_le_bytes(), 0);
                    }
                    pr.fetch_add(1, Ordering::Relaxed);
                    run_one(ctx, &p, idx);
                };
                if ctx.shard == 0 && p.fixed.is_some() {
                    go(&mut ctx, FIXED);
                }
                let mine = total / ctx.shards + (ctx.shard < total % ctx.shards) as u64;
                for idx in 0..mine {
                    if idx % 64 == 0 && t0.elapsed() > Duration::from_secs(secs) {
                        ctx.c("stopped-by-time");
                        break;
                    }
                    if ctx.fails.len() >= 40 {
                        break;
                    }
                    go(&mut ctx, idx);
                }
            }
            dn.store(true, Ordering::SeqCst);
            ctx
        })
        .unwrap();
    // Watchdog: one evaluation takes milliseconds; a hang is one that uses this much CPU time without coming to the next one.
    // (Much more of waiting is allowed: the machine may be busy.)
    let limit = get("--hang", 60);
    let mut last = (0, 0, Instant::now(), alloc::process_cpu_ns());
    while !done.load(Ordering::SeqCst) && !worker.is_finished() {
        std::thread::sleep(Duration::from_millis(5));
        let p = (progress.load(Ordering::Relaxed), ctx::PROGRESS.load(Ordering::Relaxed));
        if p != (last.0, last.1) {
            last = (p.0, p.1, Instant::now(), alloc::process_cpu_ns());
        } else if (alloc::process_cpu_ns() - last.3) / 1_000_000_000 > limit || last.2.elapsed() > Duration::from_secs(limit * 4) {
            eprintln!("HANG");
            std::process::exit(9);
        }
    }
    let ctx = worker.join().unwrap();
    let j = ctx.json();
    if let Some(out) = out {
        let mut h: Vec<u64> = ctx.hashes.iter().copied().collect();
        h.sort_unstable();
        let mut b = Vec::with_capacity(h.len() * 8);
        for x in h {
            b.extend_from_slice(&x.to_le_bytes());
        }
        fs::write(format!("{out}.hash"), b).unwrap();
        fs::write(out, serde_json::to_vec(&j).unwrap()).unwrap();
    } else {
        println!("{}", serde_json::to_string_pretty(&j).unwrap());
    }
    if ctx.fail_count > 0 {
        std::process::exit(1);
    }
}
