//! `mc run <property>`: explores every scenario that can decide the property, by increasing bounds,
//! writes the evidence file and reports violations.
use crate::explore::{self, Found, Kind, Report, Scenario};
use crate::props::{self, Tier};
use crate::ctx;
use std::fmt::Write as _;
use std::path::PathBuf;
use std::time::{Duration, Instant};

pub fn root() -> PathBuf {
    PathBuf::from(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf()
}

fn tier() -> Tier {
    if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}

fn budget(t: Tier) -> f64 {
    std::env::var("MC_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(if t == Tier::Quick { 70.0 } else { 700.0 })
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// A defect of the code under test that is recorded instead of repaired.
struct Known {
    property: String,
    scenario: String,
    oracle: String,
    what: String,
}

fn known() -> Vec<Known> {
    let Ok(s) = std::fs::read_to_string(root().join("known_findings.txt")) else { return vec![] };
    let mut v = vec![];
    for l in s.lines() {
        let Some(l) = l.strip_prefix("known: ") else { continue };
        let mut p = l.splitn(4, ' ');
        let mut f = |k: &str| p.next().and_then(|x| x.strip_prefix(k)).unwrap_or("").to_string();
        let (property, scenario, oracle) = (f("property="), f("scenario="), f("oracle="));
        v.push(Known { property, scenario, oracle, what: p.next().unwrap_or("").to_string() });
    }
    v
}

struct St {
    sc: Scenario,
    rep: Report,
    depth: usize,
    dev: u32,
    done: bool,
    complete: bool,
    level: u32,
    last_slice: f64,
    sample: Vec<u16>,
    /// not one of the scenarios made for the property: explored shallowly, with its oracles
    other: bool,
    /// operations beyond the registered depth, modulo model state, or deviations beyond the registered bound
    ext: usize,
    ext_done: String,
    ext_end: bool,
    /// executions, steps and states of that
    ext_steps: (u64, u64, u64),
}

fn at_level(sc: &Scenario, l: u32) -> (Scenario, bool) {
    let mut s = sc.clone();
    let mut top = true;
    if let Kind::Dfs { max_dev, depth } = sc.kind {
        let d = depth.min(2 + l as usize);
        let m = max_dev.min(1 + l);
        top = d == depth && m == max_dev;
        s.kind = Kind::Dfs { max_dev: m, depth: d };
    }
    (s, top)
}

pub fn write_replay(prop: &str, t: Tier, f: &Found, trace: &[String]) -> String {
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{prop}.txt"));
    let mut s = String::new();
    let _ = writeln!(s, "property={prop}");
    let _ = writeln!(s, "scenario={}", f.scenario);
    let _ = writeln!(s, "tier={t:?}");
    let _ = writeln!(s, "graph={}", f.graph);
    let _ = writeln!(s, "depth={}", f.depth);
    let _ = writeln!(s, "choices={}", f.choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","));
    let _ = writeln!(s, "oracle={}", f.oracle);
    let _ = writeln!(s, "logging={}", crate::logging());
    let _ = writeln!(s, "message={}", f.msg);
    let _ = writeln!(s, "--- trace");
    for l in trace {
        let _ = writeln!(s, "{l}");
    }
    let _ = std::fs::write(&p, s);
    p.display().to_string()
}

fn report_violation(prop: &str, t: Tier, sc: &Scenario, f: &Found) {
    let f = if f.oracle == "hang" { f.clone() } else { explore::minimize(sc, f, Duration::from_secs(8)) };
    let tr = if f.oracle == "hang" { vec![] } else { explore::trace(sc, &f.choices, f.graph, f.depth).0 };
    let p = write_replay(prop, t, &f, &tr);
    println!("scenario {} oracle {}: {}", f.scenario, f.oracle, f.msg);
    for l in tr.iter().rev().take(30).rev() {
        println!("    {l}");
    }
    println!("VIOLATION property={prop} replay={p}");
}

pub fn worker(prop: &str) -> i32 {
    let t = tier();
    let t0 = Instant::now();
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let _ = ctx::PROPERTY.set(prop.to_string());
    *explore::CRASH_FILE.lock().unwrap() = Some(root().join("replays").join(format!("{prop}.crash")).display().to_string());
    let _ = std::fs::create_dir_all(root().join("replays"));
    let end = t0 + Duration::from_secs_f64(budget(t));
    let main_end = t0 + Duration::from_secs_f64(budget(t) * 0.7);
    let known = known();
    let mut sts: Vec<St> = props::registry(t)
        .into_iter()
        .filter(|e| e.props.contains(&prop) || e.sc.name != "pair/forsaken")
        .map(|e| St { other: !e.props.contains(&prop), sc: e.sc, rep: Report::default(), depth: 0, dev: 0, done: false, complete: false, level: 0, last_slice: 0.0, sample: vec![], ext: 0, ext_done: String::new(), ext_end: false, ext_steps: (0, 0, 0) })
        .collect();
    if sts.iter().all(|s| s.other) {
        println!("no scenario decides {prop}");
        return 2;
    }
    let mut findings = vec![];
    let mut violation = false;
    // first the scenarios made for the property, then all others
    'phases: for others in [false, true] {
        let end = if others { end } else { main_end };
        loop {
            // all of them at the first level, then always the one that took the shortest time so far
            let pending: Vec<usize> = (0..sts.len()).filter(|i| !sts[*i].done && sts[*i].other == others).collect();
            let next = |i: &usize| (if sts[*i].level == 0 { -1.0 } else { sts[*i].last_slice }, *i);
            let Some(i) = pending.iter().copied().min_by(|a, b| next(a).partial_cmp(&next(b)).unwrap()) else { break };
            let left = end.saturating_duration_since(Instant::now()).as_secs_f64();
            if left <= 0.0 {
                break;
            }
            let level = sts[i].level;
            sts[i].level += 1;
            let (sc, top) = at_level(&sts[i].sc, level);
            let (d, m) = match sc.kind {
                Kind::Dfs { max_dev, depth } | Kind::Frontier { max_dev, depth, .. } => (depth, max_dev),
                Kind::Graph { depth } => (depth, 0),
            };
            if level > 0 && d == sts[i].depth && m == sts[i].dev {
                continue; // the same bounds as before
            }
            // the first level also runs with all log statements of the crate enabled
            crate::set_logging(level == 0);
            let slice = (left / pending.len() as f64 * 1.6).max(0.2).min(left);
            if explore_one(prop, t, &mut sts[i], &sc, (d, m), slice, &known, &mut findings) {
                violation = true;
                break 'phases;
            }
            let st = &mut sts[i];
            if !st.rep.exhaustive {
                st.done = true;
            } else if top || matches!(sc.kind, Kind::Graph { .. }) {
                st.done = true;
                st.complete = true;
            }
        }
        crate::set_logging(false);
        if !others && extend(prop, t, &mut sts, main_end, &known, &mut findings) {
            violation = true;
            break;
        }
    }
    crate::set_logging(false);
    // spend what is left on those that ran out of time
    while !violation {
        let left = end.saturating_duration_since(Instant::now()).as_secs_f64();
        let todo: Vec<usize> = (0..sts.len()).filter(|i| !sts[*i].complete && !sts[*i].other).collect();
        let slice = left / todo.len().max(1) as f64;
        let Some(i) = todo.into_iter().filter(|i| slice.max(left / 3.0) > 2.0 * sts[*i].last_slice && left > 2.0).min_by(|a, b| sts[*a].last_slice.total_cmp(&sts[*b].last_slice)) else { break };
        let mut lv = 0;
        let (mut sc, mut top) = at_level(&sts[i].sc, lv);
        loop {
            let (d, m) = match sc.kind {
                Kind::Dfs { max_dev, depth } | Kind::Frontier { max_dev, depth, .. } => (depth, max_dev),
                Kind::Graph { depth } => (depth, 0),
            };
            if (d, m) == (sts[i].depth, sts[i].dev) && !(sts[i].rep.exhaustive && !top) || top {
                if explore_one(prop, t, &mut sts[i], &sc, (d, m), slice.max(left / 3.0), &known, &mut findings) {
                    violation = true;
                }
                if sts[i].rep.exhaustive && top {
                    sts[i].complete = true;
                }
                break;
            }
            lv += 1;
            (sc, top) = at_level(&sts[i].sc, lv);
        }
    }
    if !violation && extend(prop, t, &mut sts, end, &known, &mut findings) {
        violation = true;
    }
    write_evidence(prop, t, seed, &sts, &findings, violation, t0.elapsed().as_secs_f64());
    for f in &findings {
        println!("KNOWN-FINDING: property={prop} {f}");
    }
    let ex: u64 = sts.iter().map(|s| s.rep.executions).sum();
    let steps: u64 = sts.iter().map(|s| s.rep.steps).sum();
    println!(
        "{prop}: {} scenarios, {} to their bound; {} others, {} of them explored to depth 2 at least; {ex} executions, {steps} steps, {:.1}s",
        sts.iter().filter(|s| !s.other).count(),
        sts.iter().filter(|s| s.complete && !s.other).count(),
        sts.iter().filter(|s| s.other).count(),
        sts.iter().filter(|s| s.other && s.rep.exhaustive).count(),
        t0.elapsed().as_secs_f64()
    );
    violation as i32
}

/// Longer scripts for the scenarios explored to their bound: beyond it, one execution per state of the
/// reference model is continued. Returns true when a violation was reported.
fn extend(prop: &str, t: Tier, sts: &mut [St], until: Instant, known: &[Known], findings: &mut Vec<String>) -> bool {
    for x in 1..=12 {
        let todo: Vec<usize> = (0..sts.len()).filter(|i| !sts[*i].other && sts[*i].complete && !sts[*i].ext_end && sts[*i].ext + 1 == x).collect();
        let n = todo.len();
        for (k, i) in todo.into_iter().enumerate() {
            let left = until.saturating_duration_since(Instant::now()).as_secs_f64();
            let Kind::Dfs { max_dev, depth } = sts[i].sc.kind else { continue };
            if left < 0.5 || sts[i].last_slice * 2.0 > left {
                continue;
            }
            let mut sc = sts[i].sc.clone();
            // scenarios without a script: more deviations
            sc.kind = match depth {
                0 => Kind::Dfs { max_dev: max_dev + x as u32, depth },
                _ => Kind::Frontier { max_dev, full: depth, depth: depth + x },
            };
            let slice = (left / (n - k) as f64 * 1.6).max(0.2).min(left);
            let t1 = Instant::now();
            let rep = explore::explore(&sc, t1 + Duration::from_secs_f64(slice), &hang(prop, t));
            sts[i].last_slice = t1.elapsed().as_secs_f64();
            if harness(&rep) {
                std::process::exit(2);
            }
            let st = &mut sts[i];
            st.ext_steps.0 += rep.executions;
            st.ext_steps.1 += rep.steps;
            st.ext_steps.2 = st.ext_steps.2.max(rep.states);
            if rep.exhaustive {
                st.ext = x;
                st.ext_done = rep.completed.clone();
                // without a script, all executions there are
                st.ext_end = depth == 0 && rep.completed == "all executions";
            } else {
                st.ext_end = true;
            }
            if let Some(f) = rep.found {
                if let Some(k) = known.iter().find(|k| k.property == prop && k.scenario == f.scenario && k.oracle == f.oracle) {
                    if !findings.contains(&k.what) {
                        findings.push(k.what.clone());
                    }
                    sts[i].ext_end = true;
                    continue;
                }
                report_violation(prop, t, &sc, &f);
                return true;
            }
        }
    }
    false
}

fn hang(prop: &str, t: Tier) -> impl Fn(Found) + Sync {
    let p2 = prop.to_string();
    move |f| {
        let s = write_replay(&p2, t, &f, &[]);
        println!("scenario {} does not return: {}", f.scenario, f.msg);
        println!("VIOLATION property={p2} replay={s}");
        std::process::exit(1);
    }
}

fn harness(rep: &Report) -> bool {
    if let Some(h) = &rep.harness_error {
        println!("HARNESS ERROR {h}");
    }
    rep.harness_error.is_some()
}

/// Returns true when a violation was reported.
#[allow(clippy::too_many_arguments)]
fn explore_one(prop: &str, t: Tier, st: &mut St, sc: &Scenario, dm: (usize, u32), slice: f64, known: &[Known], findings: &mut Vec<String>) -> bool {
    let t1 = Instant::now();
    let mut rep = explore::explore(sc, t1 + Duration::from_secs_f64(slice), &hang(prop, t));
    if harness(&rep) {
        std::process::exit(2);
    }
    st.last_slice = t1.elapsed().as_secs_f64();
    let old = std::mem::take(&mut st.rep);
    rep.executions += old.executions;
    rep.steps += old.steps;
    rep.states = rep.states.max(old.states);
    rep.outcomes = rep.outcomes.max(old.outcomes);
    rep.pruned += old.pruned;
    rep.divergences += old.divergences;
    rep.wall += old.wall;
    let old_done = old.mode_done();
    for (k, v) in old.other {
        *rep.other.entry(k).or_default() += v;
    }
    if !rep.exhaustive && old.exhaustive {
        rep.completed = format!("{}; then, partially, {}", old_done, rep.completed);
    }
    st.depth = dm.0;
    st.dev = dm.1;
    if !rep.sample_choices.is_empty() {
        st.sample = rep.sample_choices.clone();
    }
    let found = rep.found.take();
    st.rep = rep;
    if let Some(f) = found {
        if let Some(k) = known.iter().find(|k| k.property == prop && k.scenario == f.scenario && k.oracle == f.oracle) {
            if !findings.contains(&k.what) {
                findings.push(k.what.clone());
            }
            st.done = true;
            st.complete = true;
            st.rep.exhaustive = true;
            return false;
        }
        report_violation(prop, t, sc, &f);
        return true;
    }
    false
}

fn write_evidence(prop: &str, t: Tier, seed: i64, sts: &[St], findings: &[String], violation: bool, wall: f64) {
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let mut o = String::new();
    let ext = |f: fn(&St) -> u64| sts.iter().map(f).sum::<u64>();
    let sum = |f: fn(&Report) -> u64| sts.iter().map(|s| f(&s.rep)).sum::<u64>();
    let mut samples = vec![];
    let k = (sts.iter().filter(|s| !s.other).count() / 3).max(1);
    for s in sts.iter().filter(|s| !s.other).step_by(k) {
        if s.sample.is_empty() {
            continue;
        }
        let (graph, depth) = match s.sc.kind {
            Kind::Dfs { depth, .. } | Kind::Frontier { depth, .. } => (false, depth.min(s.depth)),
            Kind::Graph { .. } => (true, usize::MAX),
        };
        let (tr, _, _) = explore::trace(&s.sc, &s.sample, graph, depth);
        let n = tr.len();
        let lines: Vec<String> = tr.iter().skip(n.saturating_sub(40)).map(|l| js(l)).collect();
        samples.push(format!("{{\"scenario\":{},\"choices\":{:?},\"trace\":[{}]}}", js(&s.sc.name), s.sample, lines.join(",")));
    }
    let table: Vec<String> = sts
        .iter()
        .map(|s| {
            format!(
                "{{\"scenario\":{},\"mode\":{},\"completed\":{},\"shallow\":{},\"to_bound\":{},\"beyond\":{},\"executions_beyond\":{},\"steps_beyond\":{},\"states_beyond\":{},\"executions\":{},\"steps\":{},\"distinct_states\":{},\"distinct_outcomes\":{},\"pruned\":{},\"replay_divergences\":{},\"longest_choice_sequence\":{},\"wall_s\":{:.2}}}",
                js(&s.sc.name),
                js(&s.rep.mode),
                js(&s.rep.completed),
                s.other,
                s.complete,
                js(&match s.sc.kind {
                    _ if s.ext == 0 => String::new(),
                    Kind::Dfs { depth: 0, .. } => s.ext_done.clone(),
                    Kind::Dfs { depth, .. } => format!("script depth {}, modulo model state beyond {depth}; {}", depth + s.ext, s.ext_done),
                    _ => String::new(),
                }),
                s.ext_steps.0,
                s.ext_steps.1,
                s.ext_steps.2,
                s.rep.executions,
                s.rep.steps,
                s.rep.states,
                s.rep.outcomes,
                s.rep.pruned,
                s.rep.divergences,
                s.rep.max_choices,
                s.rep.wall
            )
        })
        .collect();
    let all = sts.iter().filter(|s| !s.other).all(|s| s.complete);
    let _ = write!(
        o,
        "{{\n\"property\":{},\n\"tier\":\"{}\",\n\"seed\":{seed},\n\"level\":\"model_checking\",\n\"coverage\":{{\n\"states\":{},\n\"transitions\":{},\n\"traces_validated_against_impl\":{},\n\"exhaustive\":{all},\n\"scenarios_to_bound\":{},\n\"scenarios_total\":{},\n\"shallow_scenarios_explored\":{},\n\"shallow_scenarios_total\":{},\n\"pruned_executions\":{},\n\"explanation\":{},\n\"scenarios\":[\n{}\n],\n\"samples\":[\n{}\n]\n}},\n",
        js(prop),
        if t == Tier::Quick { "quick" } else { "thorough" },
        ext(|s| s.rep.states.max(s.ext_steps.2)),
        sum(|r| r.steps) + ext(|s| s.ext_steps.1),
        sum(|r| r.executions) + ext(|s| s.ext_steps.0),
        sts.iter().filter(|s| s.complete && !s.other).count(),
        sts.iter().filter(|s| !s.other).count(),
        sts.iter().filter(|s| s.other && s.rep.exhaustive).count(),
        sts.iter().filter(|s| s.other).count(),
        sum(|r| r.pruned),
        js("Every execution runs the real yamux crate built from /repo against the reference model; states are distinct joint states of reference model and transport (summed over scenarios), transitions are API, driver and transport steps executed, every execution is an implementation trace compared with the reference model step by step. Nothing is sampled: each scenario enumerates all choice sequences within the bound named in `completed`; `beyond` names what was explored past it, where of the executions that reach the same state of the reference model by the same last operation one is continued."),
        table.join(",\n"),
        samples.join(",\n")
    );
    let _ = write!(
        o,
        "\"assumptions\":[{}],\n\"known_findings\":[{}],\n\"wall_s\":{wall:.2},\n\"violations\":{}\n}}\n",
        js("parking_lot, web-time and futures-channel are replaced by API-compatible shims with scheduling points and a virtual clock; the channel shim is the original source plus scheduling points"),
        findings.iter().map(|f| js(f)).collect::<Vec<_>>().join(","),
        violation as u32
    );
    let _ = std::fs::write(dir.join(format!("{prop}.json")), o);
}

/// Runs the worker in a child process, so that an abort of the code under test is a verdict as well.
pub fn parent(prop: &str) -> i32 {
    let crash = root().join("replays").join(format!("{prop}.crash"));
    let _ = std::fs::remove_file(&crash);
    let exe = std::env::current_exe().unwrap();
    let mut c = match std::process::Command::new(exe).arg("worker").arg(prop).spawn() {
        Ok(c) => c,
        Err(e) => {
            println!("cannot start worker: {e}");
            return 2;
        }
    };
    let t0 = Instant::now();
    let limit = budget(tier()) + 90.0;
    let st = loop {
        match c.try_wait() {
            Ok(Some(st)) => break st,
            Ok(None) => {
                if t0.elapsed().as_secs_f64() > limit {
                    let _ = c.kill();
                    println!("worker exceeded {limit}s");
                    return 2;
                }
                std::thread::sleep(Duration::from_millis(20));
            }
            Err(_) => return 2,
        }
    };
    match st.code() {
        Some(0) => 0,
        Some(1) => 1,
        Some(x) => {
            println!("worker ended with {x}");
            2
        }
        None => {
            let Ok(s) = std::fs::read_to_string(&crash) else {
                println!("worker was ended by a signal: {st}");
                return 2;
            };
            let v: Vec<&str> = s.lines().collect();
            let get = |i: usize| v.get(i).copied().unwrap_or("");
            let f = Found {
                scenario: get(0).into(),
                oracle: "abort".into(),
                msg: format!("the process was aborted ({st}) after a panic: {}", get(4)),
                choices: get(3).split(',').filter_map(|x| x.parse().ok()).collect(),
                graph: get(1) == "true",
                depth: get(2).parse().unwrap_or(0),
            };
            let p = write_replay(prop, tier(), &f, &[]);
            println!("scenario {} oracle abort: {}", f.scenario, f.msg);
            println!("VIOLATION property={prop} replay={p}");
            1
        }
    }
}

pub fn replay(path: &str) -> i32 {
    let Ok(s) = std::fs::read_to_string(path) else {
        println!("cannot read {path}");
        return 2;
    };
    let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").to_string();
    let _ = ctx::PROPERTY.set(get("property="));
    let t = if get("tier=") == "Thorough" { Tier::Thorough } else { Tier::Quick };
    let name = get("scenario=");
    let Some(e) = props::registry(t).into_iter().find(|e| e.sc.name == name) else {
        println!("no scenario {name}");
        return 2;
    };
    let ch: Vec<u16> = get("choices=").split(',').filter_map(|x| x.parse().ok()).collect();
    crate::set_logging(get("logging=") == "true");
    let (tr, v, p) = explore::trace(&e.sc, &ch, get("graph=") == "true", get("depth=").parse().unwrap_or(0));
    for l in tr {
        println!("{l}");
    }
    if let Some(p) = p {
        println!("HARNESS ERROR {p:?}");
        return 2;
    }
    match v {
        Some(v) => {
            println!("VIOLATION property={} replay={path}", get("property="));
            println!("{}: {}", v.oracle, v.msg);
            1
        }
        None => {
            println!("no violation");
            0
        }
    }
}

pub fn list() {
    for t in [Tier::Quick, Tier::Thorough] {
        for e in props::registry(t) {
            println!("{t:?} {} {:?} {}", e.sc.name, e.sc.kind, e.props.join(","));
        }
    }
}
