#![allow(dead_code)]
//! dldsim: deterministic simulation of the real dld binary. See DESIGN.md.
mod case;
mod elf;
mod gen;
mod image;
mod json;
mod minimise;
mod model;
mod oracle;
mod cmdline;
mod race;
mod rng;
mod world;
use case::*;
use json::*;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};
use world::*;

pub struct Opt { pub dld: String, pub shim: String, pub out: String, pub seed: u64, pub tier: String, pub workers: usize }

fn main() {
    if std::env::var("DLDSIM_DEBUG").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    let a: Vec<String> = std::env::args().skip(1).collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned());
    let o = Opt {
        dld: get("--dld").unwrap_or("/verif/build/dld/debug/dld".into()),
        shim: get("--shim").unwrap_or("/verif/build/libshim.so".into()),
        out: get("--out").unwrap_or("/verif".into()),
        seed: get("--seed").or(std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1),
        tier: get("--tier").or(std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into()),
        workers: get("--workers").and_then(|s| s.parse().ok()).unwrap_or(8),
    };
    let code = match a.first().map(|s| s.as_str()) {
        Some("check") => check(&o, &get("--property").unwrap_or_default(), get("--runs").and_then(|s| s.parse().ok()), get("--all").is_some()),
        Some("replay") => replay(&o, a.get(1).map(|s| s.as_str()).unwrap_or("")),
        Some("selftest") => selftest(&o, get("--runs").and_then(|s| s.parse().ok()).unwrap_or(400)),
        Some("show") => show_case(&o, &get("--property").unwrap_or_default(), get("--run").and_then(|s| s.parse().ok()).unwrap_or(0)),
        _ => { eprintln!("usage: dldsim check --property Cxx [--tier quick|thorough] [--seed N] | replay FILE | selftest"); 2 }
    };
    std::process::exit(code);
}

pub const PROPS: [&str; 27] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27"];

fn check(o: &Opt, prop: &str, runs: Option<u64>, all: bool) -> i32 {
    if !PROPS.contains(&prop) { eprintln!("unknown property {}", prop); return 2; }
    let t0 = Instant::now();
    let quick = o.tier != "thorough";
    let (budget, maxruns) = if quick { (Duration::from_secs(100), runs.unwrap_or(match prop { "C01" | "C03" | "C04" | "C23" | "C05" | "C21" => 20000, "C02" | "C22" => 20000, "C25" => 14000, "C26" => 8000, "C27" => 20000, "C06" => 16000, _ => 36000 })) }
        else { (Duration::from_secs(300), runs.unwrap_or(u64::MAX)) };
    println!("dldsim: property {} tier {} seed {}", prop, o.tier, o.seed);
    let next = AtomicU64::new(0);
    let stop_at = AtomicU64::new(u64::MAX);
    let dead = AtomicBool::new(false);
    let total: Mutex<Metrics> = Mutex::new(Metrics::default());
    let found: Mutex<BTreeMap<u64, (Case, String)>> = Mutex::new(BTreeMap::new());
    let census: Mutex<BTreeMap<String, (u64, u64)>> = Mutex::new(BTreeMap::new());
    let knowns = known(&o.out);
    let seen_known: Mutex<BTreeMap<usize, u64>> = Mutex::new(BTreeMap::new());
    let samples: Mutex<BTreeMap<u64, J>> = Mutex::new(BTreeMap::new());
    let errs: Mutex<Vec<String>> = Mutex::new(vec![]);
    std::thread::scope(|sc| {
        for wk in 0..o.workers {
            let (next, stop_at, dead, total, found, census, knowns, seen_known, samples, errs) = (&next, &stop_at, &dead, &total, &found, &census, &knowns, &seen_known, &samples, &errs);
            sc.spawn(move || {
                let mut mt = Metrics::default();
                let mut srv = match Server::new(&o.dld, &o.shim, wk) { Ok(s) => s, Err(e) => { errs.lock().unwrap().push(e); dead.store(true, Ordering::SeqCst); return; } };
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= maxruns || i >= stop_at.load(Ordering::SeqCst) || dead.load(Ordering::SeqCst) || t0.elapsed() > budget { break; }
                    let r = build(prop, o.seed, i, &mut srv).and_then(|c| evaluate(&c, &mut srv, &mut mt).map(|v| (c, v.0)));
                    match r {
                        // a world beyond the simulator's tables is decided before dld runs
                        Err(e) if e.ends_with("for the simulator") => {}
                        Err(e) => { errs.lock().unwrap().push(format!("run {}: {}", i, e)); dead.store(true, Ordering::SeqCst); break; }
                        Ok((c, vs)) => {
                            if i < 2 { samples.lock().unwrap().insert(i, brief(&c)); }
                            let mut first = None;
                            for v in vs.iter() {
                                if all { let mut ce = census.lock().unwrap(); let e = ce.entry(format!("{:?} {}", v.props, minimise::signature(&v.msg))).or_insert((0, i)); e.0 += 1; e.1 = e.1.min(i); }
                                if !v.props.contains(&prop) { continue; }
                                if let Some(k) = knowns.iter().position(|k| k.0 == prop && minimise::signature(&v.msg).contains(&k.1)) { *seen_known.lock().unwrap().entry(k).or_insert(0) += 1; continue; }
                                if first.is_none() { first = Some(v.msg.clone()); }
                            }
                            if let Some(msg) = first { if !all { stop_at.fetch_min(i, Ordering::SeqCst); found.lock().unwrap().insert(i, (c, msg)); } }
                        }
                    }
                }
                total.lock().unwrap().add(mt);
            });
        }
    });
    let wall = t0.elapsed().as_secs_f64();
    let mt = total.into_inner().unwrap();
    let errs = errs.into_inner().unwrap();
    if !errs.is_empty() { eprintln!("dldsim: harness error: {}", errs[0]); return 3; }
    if all {
        let c = census.into_inner().unwrap();
        let mut v: Vec<_> = c.into_iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(x.1 .0));
        for (k, (n, f)) in v.iter().take(60) { println!("{:6} first run {:5}  {}", n, f, k); }
    }
    let found = found.into_inner().unwrap();
    let nviol = found.len();
    let mut code = 0;
    let mut replay_note = J::Null;
    if let Some((run, (c, msg))) = found.into_iter().next() {
        println!("run {}: {}", run, msg);
        let dir = format!("{}/replays", o.out);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}-seed{}-run{}.json", dir, prop, o.seed, run);
        let mut srv = match Server::new(&o.dld, &o.shim, 99) { Ok(s) => s, Err(e) => { eprintln!("dldsim: {}", e); return 3; } };
        let (c, msg, tried) = minimise::minimise(c, prop, &msg, &mut srv, Duration::from_secs(if quick { 40 } else { 120 }));
        drop(srv);
        // a fresh process must fail the same way
        let mut srv = match Server::new(&o.dld, &o.shim, 98) { Ok(s) => s, Err(e) => { eprintln!("dldsim: {}", e); return 3; } };
        let mut m2 = Metrics::default();
        let again = evaluate(&c, &mut srv, &mut m2);
        let same = matches!(&again, Ok((v, _)) if v.iter().any(|x| x.props.contains(&prop) && x.msg == msg));
        if !same { eprintln!("dldsim: the violation did not reproduce: {}", msg); return 3; }
        let mut j = c.json();
        if let J::Obj(v) = &mut j { v.push(("violation".into(), msg.as_str().into())); v.push(("minimiser_candidates".into(), (tried as u64).into())); }
        if let Err(e) = std::fs::write(&path, j.dump()) { eprintln!("dldsim: {}", e); return 3; }
        println!("minimised: {} run(s), argv {:?}, {} file(s)", c.steps.len(), c.world.argv, c.world.tree.len());
        for (i, s) in c.steps.iter().enumerate() { println!("  run {}: {}", i, s.faults.json().dump().replace('\n', " ")); }
        println!("  {}", msg);
        println!("VIOLATION property={} replay={}", prop, path);
        replay_note = path.as_str().into();
        code = 1;
    }
    for (k, n) in seen_known.into_inner().unwrap() { println!("KNOWN-FINDING: property={} {} ({} times in this run)", prop, knowns[k].2, n); }
    println!("{} cases, {} simulated links, {} distinct call traces, {} distinct end states, {:.1} s", mt.cases, mt.sims, mt.shapes.len(), mt.finals.len(), wall);
    let per_hour = |n: u64| (n as f64 / wall.max(0.001) * 3600.0) as u64;
    let map = |m: &BTreeMap<String, u64>| J::Obj(m.iter().map(|(k, v)| (k.clone(), (*v).into())).collect());
    let s = &mt.stats;
    let ev = obj(vec![
        ("property", prop.into()), ("tier", if quick { "quick".into() } else { "thorough".into() }), ("seed", o.seed.into()), ("level", "exploration".into()),
        ("coverage", obj(vec![
            ("evaluations", mt.sims.into()),
            ("distinct_nontrivial", (mt.cases_seen.len() as u64).into()),
            ("rule", rule(prop).into()),
            ("samples", J::Arr(samples.into_inner().unwrap().into_values().collect())),
            ("cases", mt.cases.into()),
            ("simulated_links_per_hour", per_hour(mt.sims).into()),
            ("seeds_per_hour", per_hour(mt.cases).into()),
            ("simulated_seconds", J::Num(mt.sim_ns as f64 / 1e9)),
            ("simulated_calls", mt.calls.into()),
            ("faults_fired", map(&mt.fired)),
            ("distinct_call_traces", (mt.shapes.len() as u64).into()),
            ("distinct_end_states", (mt.finals.len() as u64).into()),
            ("probes", map(&mt.probes)),
            ("checked", obj(vec![("input_sections", s.sections.into()), ("relocations", s.relocs.into()), ("import_references_followed", s.imports_called.into()), ("lazy_bindings", s.lazy.into()),
                ("copied_objects", s.copies.into()), ("other_names_of_copied_objects", s.aliases.into()), ("hash_lookups", s.lookups.into()), ("symbols", s.symbols.into()), ("archive_members", s.members.into()), ("discarded_group_sections", s.discarded.into()), ("array_entries", s.ctors.into()), ("relocation_types", map(&s.reltypes))])),
            ("real_components", "the dld binary built from /repo (argument parsing, input search, linker, ELF writer) with goblin, combine, env_logger, parking_lot and std as linked".into()),
            ("simulated_components", "file system, clock, randomness, allocator limits, process death below the libc boundary; kernel image loader and dynamic loader (reference implementations); input files (generated)".into()),
            ("replay", replay_note),
        ])),
        ("assumptions", J::Arr(vec!["the simulated file system and loaders behave as the documents say".into(), "inputs are drawn from the generator's space; a clean batch is evidence, not proof".into()])),
        ("wall_s", J::Num(wall)),
        ("violations", (nviol as u64).into()),
    ]);
    let dir = format!("{}/evidence", o.out);
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(format!("{}/{}.json", dir, prop), ev.dump()) { eprintln!("dldsim: {}", e); return 3; }
    code
}

fn rule(prop: &str) -> &'static str {
    match prop {
        "C01" | "C03" | "C04" => "a seeded link job plus 4-8 runs of it, each with a seeded fault plan (errors, short writes, crashes, disk quota, failing allocation, vanishing input) aimed at the calls of its undisturbed run, some over an earlier output; a run counts when a fault really fired; distinct by inputs and call traces",
        "C02" => "a seeded link job run undisturbed and 3-6 times with seeded or aimed short and interrupted transfers; counts when some transfer was really disturbed",
        "C05" => "a seeded link job run under 4-7 seeded schedules (hash keys, heap layout, clock, pid, transfer sizes)",
        "C06" => "a seeded link job with damaged, garbage, cyclic or lying inputs and odd options, with fault plans and log levels; every run that ends within the call, allocation and CPU limits counts",
        "C21" => "a seeded link job that succeeds, then 4-9 runs with one input truncated or re-labelled; each such run counts",
        "C27" => "a seeded link job, and 3-6 variants of its command line: the same in other words, with a bad option or value, asking for help, with another output",
        "C25" => "a seeded link job linked with two versions of one input, then 4-9 times with the one renamed over the other at a seeded call; counts when the replacement happened",
        "C26" => "two seeded link jobs over the same files with different outputs, alone and then together under 3-6 seeded interleavings, some with faults in one of them",
        "C22" => "a seeded link job run without and with 2-4 values of RUST_LOG",
        "C23" => "a seeded link job run fresh, and again over seeded earlier outputs, including those of crashed and failed runs",
        _ => "a seeded link job (swarm of input features weighted to the property) under seeded schedules; counts when its whole image was judged or it failed as the model demands; distinct by inputs and call traces",
    }
}

/// Known findings: lines "known: property=Cxx match=<signature part> :: <what fails>".
fn known(dir: &str) -> Vec<(String, String, String)> {
    let t = std::fs::read_to_string(format!("{}/known-findings.txt", dir)).unwrap_or_default();
    t.lines().filter_map(|l| {
        let l = l.strip_prefix("known: property=")?;
        let (p, r) = l.split_once(" match=")?;
        let (m, what) = r.split_once(" :: ")?;
        Some((p.to_string(), m.to_string(), what.to_string()))
    }).collect()
}

fn brief(c: &Case) -> J {
    obj(vec![
        ("run", c.run.into()), ("mode", c.mode.as_str().into()), ("argv", c.world.argv.clone().into()),
        ("files", J::Arr(c.world.tree.iter().map(|(p, n)| match n { Node::File { data, .. } => format!("{} ({} bytes)", p, data.len()).as_str().into(), _ => p.as_str().into() }).collect())),
        ("runs", J::Arr(c.steps.iter().map(|s| obj(vec![("schedule", s.sched.json()), ("plan", s.faults.json()), ("files_changed", J::Arr(s.patch.iter().map(|p| p.0.as_str().into()).collect()))])).collect())),
    ])
}

fn load(p: &str) -> Result<(Case, String), String> {
    let t = std::fs::read_to_string(p).map_err(|e| format!("{}: {}", p, e))?;
    let j = J::parse(&t)?;
    let msg = if j.get("violation").is_null() { String::new() } else { j.get("violation").str().to_string() };
    Ok((Case::from(&j), msg))
}

fn replay(o: &Opt, p: &str) -> i32 {
    let (c, msg) = match load(p) { Ok(x) => x, Err(e) => { eprintln!("dldsim: {}", e); return 3; } };
    let mut srv = match Server::new(&o.dld, &o.shim, 0) { Ok(s) => s, Err(e) => { eprintln!("dldsim: {}", e); return 3; } };
    let mut mt = Metrics::default();
    match evaluate(&c, &mut srv, &mut mt) {
        Err(e) => { eprintln!("dldsim: {}", e); 3 }
        Ok((v, dig)) => {
            println!("history digest {:016x}", dig);
            let mut hit = false;
            for x in &v { if x.props.contains(&c.property.as_str()) { println!("{}{}", if x.msg == msg { "reproduced: " } else { "" }, x.msg); hit = true; } }
            if hit { println!("VIOLATION property={} replay={}", c.property, p); 1 } else { println!("no violation of {}", c.property); 0 }
        }
    }
}

/// The same case in different processes, on different workers, must give the same history.
fn selftest(o: &Opt, n: u64) -> i32 {
    let mut bad = 0;
    let digs: Vec<Vec<(u64, u64)>> = [8usize, 3, 1].iter().map(|w| {
        let next = AtomicU64::new(0);
        let out: Mutex<Vec<(u64, u64)>> = Mutex::new(vec![]);
        std::thread::scope(|sc| for k in 0..*w {
            let (next, out) = (&next, &out);
            sc.spawn(move || {
                let mut srv = Server::new(&o.dld, &o.shim, 200 + k).unwrap();
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= n { break; }
                    let p = PROPS[(i % PROPS.len() as u64) as usize];
                    let mut mt = Metrics::default();
                    let d = build(p, o.seed + i / 230, i, &mut srv).and_then(|c| evaluate(&c, &mut srv, &mut mt)).map(|x| x.1).unwrap_or_else(|e| { eprintln!("{}", e); 0 });
                    out.lock().unwrap().push((i, d));
                    if i % 97 == 96 { drop(std::mem::replace(&mut srv, Server::new(&o.dld, &o.shim, 300 + k).unwrap())); }
                }
            });
        });
        let mut v = out.into_inner().unwrap();
        v.sort();
        v
    }).collect();
    for i in 0..n as usize { if digs.iter().any(|d| d[i] != digs[0][i]) { bad += 1; println!("case {} ({}) differs between processes", i, PROPS[i % PROPS.len()]); } }
    println!("selftest: {} cases x 3 (8, 3 and 1 workers), {} differ", n, bad);
    if bad > 0 { 3 } else { 0 }
}

fn show_case(o: &Opt, prop: &str, run: u64) -> i32 {
    let mut srv = Server::new(&o.dld, &o.shim, 0).unwrap();
    let c = build(prop, o.seed, run, &mut srv).unwrap();
    let mut mt = Metrics::default();
    let (v, _) = evaluate(&c, &mut srv, &mut mt).unwrap();
    println!("argv {:?}", c.world.argv);
    for (p, n) in &c.world.tree { println!("  {} {}", p, match n { Node::File { data, mode } => format!("{} bytes {:o}{}", data.len(), mode, if data.len() < 400 { std::str::from_utf8(data).map(|s| format!(" {:?}", s)).unwrap_or_default() } else { String::new() }), Node::Dir => "dir".into(), Node::Link(l) => format!("-> {}", l) }); }
    for s in &c.steps { println!("  step {}", s.json().dump()); }
    let m = model::Model::new(&c.world);
    println!("expect {:?}", m.expect);
    for x in &v { println!("{:?} {}", x.props, x.msg); }
    // the files, for inspection
    let dir = format!("/tmp/dldshow-{}-{}", prop, run);
    let _ = std::fs::remove_dir_all(&dir);
    for (p, n) in &c.world.tree { if let Node::File { data, .. } = n { let q = format!("{}{}", dir, p); let _ = std::fs::create_dir_all(std::path::Path::new(&q).parent().unwrap()); let _ = std::fs::write(q, &data[..]); } }
    for (i, s) in c.steps.iter().enumerate() {
        if let Ok(r) = srv.run(&c.world, &s.sched, &s.faults) {
            println!("step {}: {} ({} calls)", i, r.describe(), r.nops);
            println!("{}", String::from_utf8_lossy(&r.stderr).chars().take(1500).collect::<String>());
            if let Some(Node::File { data, .. }) = r.tree.get(&m.output) { let _ = std::fs::write(format!("{}/OUTPUT.{}", dir, i), &data[..]); }
        }
    }
    println!("files in {}", dir);
    0
}
