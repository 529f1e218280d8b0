mod alloc;
mod conf;
mod ctx;
mod env;
mod explore;
mod mon;
mod pair;
mod threads;
mod props;
mod runner;
mod solo;
mod wire;

use std::time::{Duration, Instant};

#[global_allocator]
static A: alloc::Watch = alloc::Watch;

/// Formats every record, as a logger of an application would.
struct Sink;

pub struct Null;

impl std::fmt::Write for Null {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        Ok(())
    }
}

impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        let _ = std::fmt::Write::write_fmt(&mut Null, *r.args());
    }
    fn flush(&self) {}
}

pub fn logging() -> bool {
    log::max_level() == log::LevelFilter::Trace
}

pub fn set_logging(on: bool) {
    log::set_max_level(if on { log::LevelFilter::Trace } else { log::LevelFilter::Off });
}

fn main() {
    let _ = log::set_logger(&Sink);
    let a: Vec<String> = std::env::args().skip(1).collect();
    explore::install_panic_hook();
    match a.first().map(|s| s.as_str()) {
        Some("dev") => dev(&a[1..]),
        Some("run") if a.len() == 2 => std::process::exit(runner::parent(&a[1])),
        Some("worker") if a.len() == 2 => std::process::exit(runner::worker(&a[1])),
        Some("replay") if a.len() == 2 => std::process::exit(runner::replay(&a[1])),
        Some("list") => runner::list(),
        _ => std::process::exit(2),
    }
}

fn dev(a: &[String]) {
    let filter = a.first().cloned().unwrap_or_default();
    let secs: u64 = a.get(1).and_then(|s| s.parse().ok()).unwrap_or(10);
    let prop = a.get(2).cloned().unwrap_or_default();
    set_logging(std::env::var("MC_LOG").is_ok());
    let _ = ctx::PROPERTY.set(prop);
    let tier = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { props::Tier::Thorough } else { props::Tier::Quick };
    for mut e in props::registry(tier) {
        if !e.sc.name.contains(&filter) {
            continue;
        }
        // beyond the registered depth, modulo model state
        if let Some(x) = std::env::var("MC_EXT").ok().and_then(|x| x.parse::<usize>().ok()) {
            if let explore::Kind::Dfs { max_dev, depth } = e.sc.kind {
                e.sc.kind = explore::Kind::Frontier { max_dev, full: depth, depth: depth + x };
            }
        }
        let rep = explore::explore(&e.sc, Instant::now() + Duration::from_secs(secs), &|f| {
            println!("HANG {f:?}");
            std::process::exit(1)
        });
        println!(
            "{:24} exec {:9} steps {:10} states {:8} outc {:7} pruned {:7} merged {:7} maxch {:3} {} {:.1}s {:?}",
            rep.name, rep.executions, rep.steps, rep.states, rep.outcomes, rep.pruned, rep.merged, rep.max_choices, rep.completed, rep.wall, rep.other
        );
        if let Some(h) = rep.harness_error {
            println!("HARNESS {h}");
        }
        if let Some(f) = rep.found {
            let f = explore::minimize(&e.sc, &f, Duration::from_secs(5));
            println!("FOUND {} {}: {:?}", f.oracle, f.msg, f.choices);
            let (tr, _, p) = explore::trace(&e.sc, &f.choices, f.graph, f.depth);
            let n = tr.len();
            for l in tr.iter().skip(n.saturating_sub(std::env::var("T").ok().and_then(|t| t.parse().ok()).unwrap_or(14))) {
                println!("    {l}");
            }
            println!("    {p:?}");
        }
    }
}
