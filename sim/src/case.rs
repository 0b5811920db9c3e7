//! One simulated scenario: a world and a history of link runs in it (schedules, faults, states left
//! over from earlier runs), how it is made for each property, and how its history is judged.
use crate::gen::*;
use crate::json::*;
use crate::model::*;
use crate::oracle::*;
use crate::rng::*;
use crate::world::*;
use std::collections::BTreeMap;
use std::sync::Arc;

#[derive(Clone, Debug, Default)]
pub struct Step {
    pub sched: Sched,
    pub faults: Faults,
    /// Replaces the environment.
    pub env: Option<Vec<(String, String)>>,
    /// Changes to the files before this run (None: removed).
    pub patch: Vec<(String, Option<Node>)>,
    /// The output path starts with what that earlier run left there.
    pub prior_from: Option<usize>,
    /// Another command line, and what it is meant to be.
    pub argv: Option<Vec<String>>,
    pub note: String,
    /// A second link at the same time.
    pub also: Option<Other>,
}

#[derive(Clone, Debug)]
pub struct Case { pub property: String, pub seed: u64, pub run: u64, pub mode: String, pub world: World, pub steps: Vec<Step> }

impl Step {
    pub fn json(&self) -> J {
        let mut v = vec![("schedule", self.sched.json()), ("plan", self.faults.json())];
        if let Some(e) = &self.env { v.push(("env", J::Arr(e.iter().map(|(a, b)| J::Arr(vec![a.as_str().into(), b.as_str().into()])).collect()))); }
        if !self.patch.is_empty() {
            let present: Tree = self.patch.iter().filter_map(|(p, n)| n.clone().map(|n| (p.clone(), n))).collect();
            v.push(("files", tree_json(&present)));
            v.push(("removed", J::Arr(self.patch.iter().filter(|x| x.1.is_none()).map(|x| x.0.as_str().into()).collect())));
        }
        if let Some(a) = &self.argv { v.push(("argv", a.clone().into())); }
        if !self.note.is_empty() { v.push(("note", self.note.as_str().into())); }
        if let Some(o) = &self.also { v.push(("at_the_same_time", o.json())); }
        if let Some(p) = self.prior_from { v.push(("output_left_by_run", (p as u64).into())); }
        obj(v)
    }
    pub fn from(j: &J) -> Step {
        let mut patch: Vec<(String, Option<Node>)> = vec![];
        if !j.get("files").is_null() { patch.extend(tree_from(j.get("files")).into_iter().map(|(p, n)| (p, Some(n)))); }
        if !j.get("removed").is_null() { patch.extend(j.get("removed").arr().iter().map(|p| (p.str().to_string(), None))); }
        Step {
            sched: Sched::from(j.get("schedule")),
            faults: Faults::from(j.get("plan")),
            argv: if j.get("argv").is_null() { None } else { Some(j.get("argv").arr().iter().map(|a| a.str().to_string()).collect()) },
            note: if j.get("note").is_null() { String::new() } else { j.get("note").str().to_string() },
            also: if j.get("at_the_same_time").is_null() { None } else { Some(Other::from(j.get("at_the_same_time"))) },
            env: if j.get("env").is_null() { None } else { Some(j.get("env").arr().iter().map(|a| (a.arr()[0].str().to_string(), a.arr()[1].str().to_string())).collect()) },
            patch,
            prior_from: if j.get("output_left_by_run").is_null() { None } else { Some(j.get("output_left_by_run").u() as usize) },
        }
    }
}

impl Case {
    pub fn json(&self) -> J {
        obj(vec![
            ("property", self.property.as_str().into()), ("seed", self.seed.into()), ("run", self.run.into()), ("mode", self.mode.as_str().into()),
            ("world", self.world.json()), ("runs", J::Arr(self.steps.iter().map(|s| s.json()).collect())),
        ])
    }
    pub fn from(j: &J) -> Case {
        Case { property: j.get("property").str().into(), seed: j.get("seed").u(), run: j.get("run").u(), mode: j.get("mode").str().into(),
               world: World::from(j.get("world")), steps: j.get("runs").arr().iter().map(Step::from).collect() }
    }
}

#[derive(Default, Clone)]
pub struct Metrics {
    pub cases: u64, pub sims: u64, pub sim_ns: u64, pub nontrivial: u64,
    pub fired: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub shapes: std::collections::HashSet<u64>,
    pub finals: std::collections::HashSet<u64>,
    pub cases_seen: std::collections::HashSet<u64>,
    pub stats: Stats,
    pub calls: u64,
}
impl Metrics {
    pub fn add(&mut self, o: Metrics) {
        self.cases += o.cases; self.sims += o.sims; self.sim_ns += o.sim_ns; self.nontrivial += o.nontrivial; self.calls += o.calls;
        for (k, v) in o.fired { *self.fired.entry(k).or_insert(0) += v; }
        for (k, v) in o.probes { *self.probes.entry(k).or_insert(0) += v; }
        self.shapes.extend(o.shapes); self.finals.extend(o.finals); self.cases_seen.extend(o.cases_seen);
        self.stats.add(&o.stats);
    }
    pub fn probe(&mut self, k: &str) { *self.probes.entry(k.to_string()).or_insert(0) += 1; }
    pub fn saw(&mut self, f: &Faults, r: &Run) {
        self.sims += 1;
        self.sim_ns += r.sim_ns;
        self.calls += r.nops;
        self.shapes.insert(r.schedule_shape());
        self.finals.insert(r.digest());
        for (i, x) in f.list.iter().enumerate() {
            if r.fired.get(i).copied().unwrap_or(false) {
                let on = r.journal.get(x.op as usize).map(|o| KINDS[(o.kind as usize).min(23)]).unwrap_or("?");
                let what = if x.kind == F_ERR { format!("error {} on {}", errname(x.err), on) } else if x.kind == F_VANISH { "input vanishes between calls".into() } else if x.kind == F_REPLACE { "input replaced between calls".into() } else { format!("{} on {}", FKINDS[x.kind as usize], on) };
                *self.fired.entry(what).or_insert(0) += 1;
            }
        }
        for (n, v) in [("disk full", r.quota_hits), ("short transfer", r.short_fired), ("EINTR", r.eintr_fired), ("failed allocation", r.alloc_failed)] {
            if v > 0 { *self.fired.entry(n.into()).or_insert(0) += v; }
        }
    }
}

pub fn errname(e: u32) -> String {
    [(2u32, "ENOENT"), (4, "EINTR"), (5, "EIO"), (12, "ENOMEM"), (13, "EACCES"), (23, "ENFILE"), (24, "EMFILE"), (27, "EFBIG"), (28, "ENOSPC"), (30, "EROFS"), (1, "EPERM"), (122, "EDQUOT"), (116, "ESTALE"), (11, "EAGAIN"), (16, "EBUSY"), (26, "ETXTBSY"), (21, "EISDIR")]
        .iter().find(|x| x.0 == e).map(|x| x.1.to_string()).unwrap_or(format!("errno {}", e))
}

pub fn sched(rng: &mut Rng, io: bool) -> Sched {
    let mut s = Sched { hash_seed: rng.u64() | 1, heap_seed: if rng.chance(70) { rng.u64() } else { 0 }, clock: rng.u64() % 4_000_000_000, pid: rng.range(2, 4_000_000) as u64, io_seed: 0, short: 0, eintr: 0 };
    if io {
        s.io_seed = rng.u64();
        s.short = *rng.pick(&[0, 100, 500, 950]);
        s.eintr = *rng.pick(&[0, 50, 300]);
    }
    s
}
pub fn calm(rng: &mut Rng) -> Sched { Sched { hash_seed: rng.u64() | 1, heap_seed: 0, clock: 1_700_000_000, pid: 1000, io_seed: 0, short: 0, eintr: 0 } }

fn output_ops(r: &Run, out: &str) -> Vec<usize> {
    (0..r.journal.len()).filter(|i| r.op_paths.get(&r.journal[*i].ino).map(|p| p == out).unwrap_or(false) && r.journal[*i].kind != K_STDERR).collect()
}

/// A fault plan aimed at the calls of an undisturbed run.
pub fn plan(rng: &mut Rng, base: &Run, out: &str, w: &World, prop: &str) -> Faults {
    let mut f = Faults::default();
    let n = base.journal.len();
    if n == 0 { return f; }
    let outs = output_ops(base, out);
    let io: Vec<usize> = (0..n).filter(|i| matches!(base.journal[*i].kind, K_OPEN | K_READ | K_WRITE | K_CHMOD | K_TRUNC | K_RENAME) || KINDS[base.journal[*i].kind.min(23) as usize] == "sync" || KINDS[base.journal[*i].kind.min(23) as usize] == "unlink" || KINDS[base.journal[*i].kind.min(23) as usize] == "seek").collect();
    if io.is_empty() { return f; }
    let at = |rng: &mut Rng| -> usize { if !outs.is_empty() && rng.chance(60) { *rng.pick(&outs) } else { *rng.pick(&io) } };
    let err_for = |rng: &mut Rng, k: u32| -> u32 {
        match k {
            K_OPEN => *rng.pick(&[13, 5, 24, 23, 28, 2, 30, 12, 26]),
            K_READ => *rng.pick(&[5, 5, 12, 116]),
            K_WRITE => *rng.pick(&[28, 5, 27, 122, 28]),
            K_CHMOD => *rng.pick(&[1, 5, 30, 13]),
            _ => *rng.pick(&[5, 13, 28, 12]),
        }
    };
    let kinds: &[u64] = match prop { "C03" => &[0, 1, 2, 2, 2, 2, 2, 3, 5], "C04" => &[0, 1, 2, 2, 3, 4, 5, 6], "C01" => &[0, 0, 0, 0, 1, 1, 3, 3, 3, 5, 7], _ => &[0, 1, 2, 3, 5] };
    match *rng.pick(kinds) {
        0 => {
            let i = at(rng);
            let k = base.journal[i].kind;
            // the destructive calls of the output fail most often
            f.list.push(Fault { op: i as u64, kind: F_ERR, err: err_for(rng, k), arg: 0 });
        }
        1 => {
            // several errors, some transfers short or interrupted before
            for _ in 0..rng.range(2, 4) {
                let i = at(rng);
                let k = base.journal[i].kind;
                if matches!(k, K_READ | K_WRITE) && rng.chance(40) {
                    let full = base.journal[i].ret.max(1);
                    f.list.push(Fault { op: i as u64, kind: F_SHORT, err: 0, arg: rng.range(1, full as usize) as i64 });
                } else { let e = err_for(rng, k); f.list.push(Fault { op: i as u64, kind: F_ERR, err: e, arg: 0 }); }
            }
        }
        2 => {
            let i = if rng.chance(75) && !outs.is_empty() { *rng.pick(&outs) } else { rng.range(0, n - 1) };
            let k = base.journal[i].kind;
            let kind = if matches!(k, K_READ | K_WRITE) && rng.chance(50) { F_CRASH_MID } else { *rng.pick(&[F_CRASH_BEFORE, F_CRASH_AFTER]) };
            if rng.chance(40) && !outs.is_empty() {
                // a piece of the output first
                let ws: Vec<usize> = outs.iter().copied().filter(|i| base.journal[*i].kind == K_WRITE).collect();
                if !ws.is_empty() { let j = *rng.pick(&ws); if j != i { f.list.push(Fault { op: j as u64, kind: F_SHORT, err: 0, arg: rng.range(1, base.journal[j].ret.max(1) as usize) as i64 }); } }
            }
            f.list.push(Fault { op: i as u64, kind, err: 0, arg: rng.below(base.journal[i].ret.max(1) as u64) as i64 });
        }
        3 => {
            let sz = match base.tree.get(out) { Some(Node::File { data, .. }) => data.len() as u64, _ => 4096 };
            f.quota = if rng.chance(30) { rng.below(300) as i64 } else if rng.chance(30) { sz as i64 - rng.range(1, 64) as i64 } else { rng.below(sz.max(1)) as i64 };
            if f.quota < 0 { f.quota = 0; }
        }
        4 => {
            let files: Vec<&String> = w.tree.iter().filter(|(p, n)| matches!(n, Node::File { .. }) && (p.ends_with(".o") || p.ends_with(".a") || p.ends_with(".so"))).map(|x| x.0).collect();
            if !files.is_empty() {
                let p = *rng.pick(&files);
                if let Some(e) = entry_index(&w.tree, p) { f.list.push(Fault { op: rng.below(n as u64), kind: F_VANISH, err: 0, arg: e }); }
            }
        }
        5 => f.alloc_fail = rng.below(base.nallocs.max(1)) as i64,
        6 => {
            // anything at any call
            for _ in 0..rng.range(1, 3) { let i = rng.range(0, n - 1); let k = base.journal[i].kind; let e = err_for(rng, k); f.list.push(Fault { op: i as u64, kind: F_ERR, err: e, arg: 0 }); }
        }
        _ => {
            let ws: Vec<usize> = io.iter().copied().filter(|i| base.journal[*i].kind == K_WRITE).collect();
            if !ws.is_empty() { let i = *rng.pick(&ws); f.list.push(Fault { op: i as u64, kind: F_ZERO, err: 0, arg: 0 }); }
        }
    }
    f
}

/// What an earlier program may have left at the output path.
pub fn prior(rng: &mut Rng, base: Option<&Vec<u8>>) -> Option<Node> {
    let size = base.map(|b| b.len()).unwrap_or(4000);
    let data = match rng.below(7) {
        0 => vec![],
        1 => b"#!/bin/sh\nexit 0\n".to_vec(),
        2 => { let n = size + rng.range(1, 5000); rng.bytes(n) }
        3 => { let n = rng.range(1, size.max(2)); rng.bytes(n) }
        4 => rng.bytes(size),
        5 => { let mut b = base.cloned().unwrap_or(vec![0x7f; 100]); let n = rng.range(1, 64); let t = rng.bytes(n); b.extend(t); b }
        _ => { let mut b = base.cloned().unwrap_or(vec![0x7f; 100]); let k = rng.range(0, b.len().max(1) - 1); if let Some(x) = b.get_mut(k) { *x ^= 0x55; } b }
    };
    Some(Node::File { mode: *rng.pick(&[0o755, 0o755, 0o755, 0o644, 0o600, 0o777, 0o700, 0o711, 0o4755 & 0o777]), data: Arc::new(data) })
}


/// Names the output after nothing that exists, so that no input is overwritten on purpose.
fn make_world(rng: &mut Rng, prop: &str) -> World { image_world(rng, prop).world }

pub fn any_profile(rng: &mut Rng) -> &'static str {
    *rng.pick(&["C07", "C08", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C24", ""])
}

/// Directs the output onto one of the inputs, by its name, by another name or through a link.
fn onto_input(rng: &mut Rng, w: &mut World) {
    let m = Model::new(w);
    let c: Vec<&String> = m.inputs.iter().collect();
    if c.is_empty() { return; }
    let p = rng.pick(&c).to_string();
    let o = match rng.below(3) {
        0 => p,
        1 => format!("/w/..{}", p),
        _ => { w.tree.insert("/w/alias".into(), Node::Link(p)); "alias".to_string() }
    };
    match w.argv.iter().position(|a| a == "-o") {
        Some(i) if i + 1 < w.argv.len() => w.argv[i + 1] = o,
        _ => { w.argv.insert(0, o); w.argv.insert(0, "-o".into()); }
    }
}

/// Makes the output one file with an input, or with a copy that someone keeps of an earlier one.
fn other_name(rng: &mut Rng, w: &mut World) {
    let m = Model::new(w);
    if w.tree.contains_key(&m.output) || m.inputs.contains(&m.output) { return; }
    let c: Vec<&String> = m.inputs.iter().filter(|p| matches!(w.tree.get(*p), Some(Node::File { mode, .. }) if mode & 0o200 != 0)).collect();
    if !c.is_empty() && rng.chance(50) {
        let p = rng.pick(&c).to_string();
        let n = w.tree[&p].clone();
        w.tree.insert(m.output.clone(), n);
        w.hard.push((m.output, p));
    } else if let Some(n) = prior(rng, None) {
        if perm_err(Some(&n)) { return; }
        let p = rng.pick(&["/w/backup/out", "/a", "/w/zz.old"]).to_string();
        if w.tree.contains_key(&p) { return; }
        w.tree.insert(m.output.clone(), n.clone());
        w.tree.insert(p.clone(), n);
        w.hard.push((m.output, p));
    }
}

pub fn build(prop: &str, seed: u64, run: u64, srv: &mut Server) -> Result<Case, String> {
    let mut rng = Rng::new(seed, prop, run);
    let rng = &mut rng;
    let mk = |mode: &str, world: World, steps: Vec<Step>| Case { property: prop.into(), seed, run, mode: mode.into(), world, steps };
    let step = |s: Sched| Step { sched: s, ..Default::default() };
    match prop {
        "C01" | "C03" | "C04" => {
            let pf = if rng.chance(12) { "C09" } else if rng.chance(8) { "C11" } else { any_profile(rng) };
            let mut w = make_world(rng, pf);
            if prop == "C04" && rng.chance(5) { onto_input(rng, &mut w); }
            else if prop == "C04" && rng.chance(3) {
                let o = rng.pick(&["no/such/prog", "/w/new/prog", "/none/of/these/prog", "../not/here"]).to_string();
                match w.argv.iter().position(|a| a == "-o") {
                    Some(i) if i + 1 < w.argv.len() => w.argv[i + 1] = o,
                    _ => { w.argv.insert(0, o); w.argv.insert(0, "-o".into()); }
                }
            }
            else if rng.chance(if prop == "C04" { 10 } else { 3 }) { other_name(rng, &mut w); }
            let s = calm(rng);
            let base = srv.run(&w, &s, &Faults::default())?;
            let m = Model::new(&w);
            let basefile = match base.tree.get(&m.output) { Some(Node::File { data, .. }) if base.ok() => Some(data.to_vec()), _ => None };
            let mut steps = vec![step(s.clone())];
            for _ in 0..rng.range(4, 8) {
                let mut st = step(s.clone());
                st.faults = plan(rng, &base, &m.output, &w, prop);
                if rng.chance(30) { let x = sched(rng, true); st.sched.io_seed = x.io_seed; st.sched.short = x.short; st.sched.eintr = x.eintr; }
                if rng.chance(if prop == "C01" { 25 } else { 60 }) { st.patch.push((m.output.clone(), prior(rng, basefile.as_ref()))); }
                steps.push(st);
            }
            Ok(mk("fault", w, steps))
        }
        "C02" => {
            let w = { let p = any_profile(rng); make_world(rng, p) };
            let s = calm(rng);
            let base = srv.run(&w, &s, &Faults::default())?;
            let mut steps = vec![step(s.clone())];
            for _ in 0..rng.range(3, 6) {
                let mut st = step(s.clone());
                if rng.chance(60) {
                    st.sched.io_seed = rng.u64();
                    st.sched.short = *rng.pick(&[0, 100, 500, 900, 1000]);
                    st.sched.eintr = *rng.pick(&[0, 20, 200, 500]);
                } else {
                    for _ in 0..rng.range(1, 4) {
                        let c: Vec<usize> = (0..base.journal.len()).filter(|i| matches!(base.journal[*i].kind, K_READ | K_WRITE)).collect();
                        if c.is_empty() { break; }
                        let i = *rng.pick(&c);
                        st.faults.list.push(if rng.chance(30) { Fault { op: i as u64, kind: F_ERR, err: 4, arg: 0 } } else { Fault { op: i as u64, kind: F_SHORT, err: 0, arg: rng.range(1, base.journal[i].ret.max(1) as usize) as i64 } });
                    }
                }
                steps.push(st);
            }
            Ok(mk("chunk", w, steps))
        }
        "C05" => {
            let p = if rng.chance(10) { "C09" } else { any_profile(rng) };
            let w = make_world(rng, p);
            let mut steps = vec![step(calm(rng))];
            for _ in 0..rng.range(3, 6) { let io = rng.chance(30); steps.push(step(sched(rng, io))); }
            Ok(mk("repro", w, steps))
        }
        "C06" => build_term(rng, srv, seed, run),
        "C21" => build_torn(rng, srv, seed, run),
        "C27" => crate::cmdline::build_cmdline(rng, srv, seed, run),
        "C25" => crate::race::build_swap(rng, srv, seed, run),
        "C26" => crate::race::build_pair(rng, srv, seed, run),
        "C22" => {
            let p = if rng.chance(15) { "C09" } else { any_profile(rng) };
            let w = make_world(rng, p);
            let s = calm(rng);
            let mut steps = vec![step(s.clone())];
            let levels = ["trace", "debug", "info", "warn", "error", "off", "dld=trace", "dld=debug,goblin=trace", "bogus", "dld::elf=trace", "dld::linker=trace", "trace,dld=off", "", "dld[x]=trace/("];
            for _ in 0..rng.range(2, 4) {
                let mut st = step(s.clone());
                let mut e = w.env.clone();
                let l = if rng.chance(35) { "trace" } else { *rng.pick(&levels) };
                e.push(("RUST_LOG".into(), l.into()));
                if rng.chance(20) { e.push(("RUST_LOG_STYLE".into(), rng.pick(&["always", "never", "auto"]).to_string())); }
                if rng.chance(20) { st.sched.clock = rng.u64() % 9_000_000_000; }
                st.env = Some(e);
                steps.push(st);
            }
            Ok(mk("log", w, steps))
        }
        "C23" => {
            let p = any_profile(rng);
            let mut w = make_world(rng, p);
            let s = calm(rng);
            let base = srv.run(&w, &s, &Faults::default())?;
            let m = Model::new(&w);
            let basefile = match base.tree.get(&m.output) { Some(Node::File { data, .. }) if base.ok() => Some(data.to_vec()), _ => None };
            let mut steps = vec![step(s.clone())];
            for _ in 0..rng.range(3, 5) {
                if rng.chance(50) {
                    // a crashed or failed run, then again without faults
                    let mut st = step(s.clone());
                    st.faults = plan(rng, &base, &m.output, &w, "C03");
                    if rng.chance(50) { st.patch.push((m.output.clone(), prior(rng, basefile.as_ref()))); } else if rng.chance(40) { st.prior_from = Some(rng.range(0, steps.len() - 1)); }
                    steps.push(st);
                    let mut again = step(if rng.chance(50) { s.clone() } else { let mut x = sched(rng, false); x.hash_seed = s.hash_seed; x });
                    again.prior_from = Some(steps.len() - 1);
                    steps.push(again);
                } else {
                    let mut st = step(s.clone());
                    st.patch.push((m.output.clone(), prior(rng, basefile.as_ref())));
                    if rng.chance(20) { if let Some((_, Some(Node::File { mode, .. }))) = st.patch.last_mut() { *mode = *rng.pick(&[0o444, 0o555, 0, 0o200]); } }
                    steps.push(st);
                }
            }
            // the old output may have another name as well
            if rng.chance(10) && !w.tree.contains_key("/w/zz.old") {
                w.hard.push((m.output.clone(), "/w/zz.old".into()));
                for st in &mut steps { if let Some((p, n)) = st.patch.first().cloned() { if p == m.output { st.patch.push(("/w/zz.old".into(), n)); } } }
            }
            Ok(mk("relink", w, steps))
        }
        _ => {
            let w = make_world(rng, prop);
            let n = if rng.chance(40) { 2 } else { 1 };
            let mut steps = vec![];
            for _ in 0..n { let io = rng.chance(30); steps.push(step(sched(rng, io))); }
            if rng.chance(12) {
                // a fault somewhere: if the link reports success all the same, the image must be right
                let base = srv.run(&w, &steps[0].sched, &Faults::default())?;
                let mut st = step(steps[0].sched.clone());
                let m = Model::new(&w);
                st.faults = plan(rng, &base, &m.output, &w, "C01");
                steps.push(st);
            }
            Ok(mk("image", w, steps))
        }
    }
}

const WORDS: [&str; 26] = ["GROUP", "INPUT", "AS_NEEDED", "OUTPUT_FORMAT", "(", ")", "(", ")", "/*", "*/", "*", "/", "libc.so.6", "/w/self.ld", "-lfoo", "-l", "\n", " ", ";", "{", "}", "\"", "elf64-x86-64", ",", "=", "/w/obj0.o"];

fn garbage(rng: &mut Rng) -> Vec<u8> {
    match rng.below(6) {
        0 => vec![],
        1 => { let n = rng.range(1, 300); rng.bytes(n) }
        2 => { let n = rng.range(1, 300); (0..n).map(|_| (rng.below(95) + 32) as u8).collect() }
        3 => { let n = rng.range(1, 12); let mut s = String::new(); for _ in 0..n { s += rng.pick(&WORDS); if rng.chance(60) { s += " "; } } s.into_bytes() }
        4 => { let mut b = b"\x7fELF\x02\x01\x01\0\0\0\0\0\0\0\0\0".to_vec(); let n = rng.range(0, 200); let d = rng.bytes(n); b.extend(d); b }
        _ => { let mut b = b"!<arch>\n".to_vec(); let n = rng.range(0, 200); let d = rng.bytes(n); b.extend(d); b }
    }
}

fn build_term(rng: &mut Rng, srv: &mut Server, seed: u64, run: u64) -> Result<Case, String> {
    let p = if rng.chance(15) { "C09" } else { any_profile(rng) };
    let mut w = make_world(rng, p);
    let files: Vec<String> = w.tree.iter().filter(|(p, n)| matches!(n, Node::File { .. }) && (p.ends_with(".o") || p.ends_with(".a") || p.ends_with(".so") || p.ends_with(".ld"))).map(|x| x.0.clone()).collect();
    for _ in 0..rng.range(0, 2) {
        match rng.below(8) {
            0 => {
                // scripts that name themselves or each other
                let t = match rng.below(4) {
                    0 => "GROUP ( /w/self.ld )\n".to_string(),
                    1 => "GROUP ( /w/two.ld )\n".into(),
                    2 => "GROUP ( /w/two.ld /w/two.ld /w/self.ld )\n".into(),
                    _ => "OUTPUT_FORMAT(elf64-x86-64)\nGROUP ( AS_NEEDED ( /w/self.ld ) )".into(),
                };
                w.tree.insert("/w/self.ld".into(), file(t.into_bytes()));
                w.tree.insert("/w/two.ld".into(), file(if rng.chance(50) { b"GROUP ( /w/self.ld )".to_vec() } else { b"GROUP ( self.ld ../w/two.ld )".to_vec() }));
                w.argv.push("self.ld".into());
            }
            1 | 2 => { let d = garbage(rng); w.tree.insert("/w/junk.ld".into(), file(d)); w.argv.push(rng.pick(&["junk.ld", "/w/junk.ld"]).to_string()); }
            3 | 4 => if !files.is_empty() {
                let p = rng.pick(&files).clone();
                if let Some(Node::File { data, .. }) = w.tree.get(&p).cloned() {
                    let mut d = data.to_vec();
                    for _ in 0..rng.range(1, 6) {
                        if d.is_empty() { break; }
                        let k = if rng.chance(50) { rng.below(d.len().min(0x80) as u64) as usize } else { rng.range(0, d.len() - 1) };
                        d[k] = *rng.pick(&[0, 1, 0xff, 0x7f, 0x80, d[k] ^ 1, d[k].wrapping_add(1)]);
                    }
                    w.tree.insert(p, file(d));
                }
            },
            5 => {
                // an archive whose index promises symbols its members do not define
                let ars: Vec<&String> = files.iter().filter(|p| p.ends_with(".a")).collect();
                if !ars.is_empty() {
                    let p = (*rng.pick(&ars)).clone();
                    if let Some(Node::File { data, .. }) = w.tree.get(&p).cloned() {
                        let mut d = data.to_vec();
                        // rename a symbol inside the members but not in the index: change the last occurrence
                        for name in ["m0_0", "m1_0", "m2_0", "m0_1", "dup_0", "m3_0"] {
                            let hits = find_all(&d, name.as_bytes());
                            if hits.len() >= 2 { for h in hits.iter().skip(1) { d[*h] = b'z'; } if rng.chance(60) { break; } }
                        }
                        w.tree.insert(p, file(d));
                    }
                }
            }
            6 => { for a in ["-o", "-L", "-l", "-z", "-m", "--build-id", "-dynamic-linker", "--hash-style=x", "--help", "-h", "-L/no/dir", "--unknown", "", "-", "--start-group"] { if rng.chance(12) { let at = rng.range(0, w.argv.len()); w.argv.insert(at, a.into()); } } }
            _ => if !files.is_empty() { let p = rng.pick(&files).clone(); let d = garbage(rng); w.tree.insert(p, file(d)); },
        }
    }
    let io = rng.chance(40);
    let s = sched(rng, io);
    let mut steps = vec![Step { sched: s.clone(), ..Default::default() }];
    if rng.chance(60) {
        let base = srv.run(&w, &s, &Faults::default())?;
        if !base.hung() {
            let m = Model::new(&w);
            let mut st = Step { sched: s.clone(), ..Default::default() };
            let pp = *rng.pick(&["C01", "C04", ""]);
            st.faults = plan(rng, &base, &m.output, &w, pp);
            steps.push(st);
        }
    }
    if rng.chance(25) {
        let mut st = Step { sched: s, ..Default::default() };
        let mut e = w.env.clone();
        e.push(("RUST_LOG".into(), rng.pick(&["trace", "debug", "dld=info"]).to_string()));
        st.env = Some(e);
        steps.push(st);
    }
    Ok(Case { property: "C06".into(), seed, run, mode: "term".into(), world: w, steps })
}

fn build_torn(rng: &mut Rng, srv: &mut Server, seed: u64, run: u64) -> Result<Case, String> {
    let p = any_profile(rng);
    let w = make_world(rng, p);
    let s = calm(rng);
    let m = Model::new(&w);
    let mut steps = vec![Step { sched: s.clone(), ..Default::default() }];
    let files: Vec<String> = m.inputs.iter().filter(|p| matches!(w.tree.get(*p), Some(Node::File { data, .. }) if data.starts_with(b"\x7fELF") || data.starts_with(b"!<arch>\n"))).cloned().collect();
    if files.is_empty() { return Ok(Case { property: "C21".into(), seed, run, mode: "torn".into(), world: w, steps }); }
    for _ in 0..rng.range(4, 9) {
        let p = rng.pick(&files).clone();
        let data = match &w.tree[&p] { Node::File { data, .. } => data.clone(), _ => continue };
        let mut d = data.to_vec();
        let archive = d.starts_with(b"!<arch>\n");
        if !archive && d[16] == 1 && rng.chance(6) {
            // a finished executable where an object belongs
            match srv.run(&w, &s, &Faults::default())?.tree.get(&m.output) { Some(Node::File { data, .. }) if data.starts_with(b"\x7fELF") => d = data.to_vec(), _ => continue }
        } else if rng.chance(60) {
            let n = d.len();
            let cut = match rng.below(8) {
                // at the end of a member, or one byte after
                6 | 7 if archive => { let mut ends: Vec<usize> = crate::elf::parse_archive(&d).map(|a| a.members.iter().flat_map(|(_, o, _)| [o - 60, o - 59, *o]).collect()).unwrap_or_default(); ends.push(9); *rng.pick(&ends) }
                0 => rng.below(80.min(n as u64)) as usize,
                1 => n - 1,
                2 => n - 1 - rng.below(64.min(n as u64)) as usize,
                3 if archive => { let hs: Vec<usize> = find_all(&d, b"\x7fELF"); if hs.is_empty() { n / 2 } else { let h = *rng.pick(&hs); h + rng.below((n - h) as u64) as usize } }
                _ => rng.below(n as u64) as usize,
            };
            // nothing but the magic is a valid archive
            if archive && cut == 8 { continue; }
            d.truncate(cut);
        } else {
            let heads: Vec<usize> = if archive { find_all(&d, b"\x7fELF\x02") } else { vec![0] };
            if heads.is_empty() { continue; }
            let h = *rng.pick(&heads);
            let lib = !archive && d[16] == 3;
            match rng.below(6) {
                0 => { let v: u16 = *rng.pick(&[3, 40, 183, 243, 0, 8]); d[h + 18..h + 20].copy_from_slice(&v.to_le_bytes()); }
                1 => d[h + 4] = *rng.pick(&[1, 0]),
                2 => d[h + 5] = *rng.pick(&[2, 0]),
                3 if archive => { d[h + 16] = 3; }
                _ => { let v: u8 = *rng.pick(&[2, 4, 0]); d[h + 16] = v; let _ = lib; }
            }
        }
        steps.push(Step { sched: s.clone(), patch: vec![(p, Some(file(d)))], ..Default::default() });
    }
    Ok(Case { property: "C21".into(), seed, run, mode: "torn".into(), world: w, steps })
}

fn perm_err(n: Option<&Node>) -> bool { matches!(n, Some(Node::File { mode, .. }) if mode & 0o200 == 0) }

fn same(a: Option<&Node>, b: Option<&Node>) -> bool { a == b }

/// Judges one finished link against the model.
fn judge(w: &World, m: &Model, r: &Run, seed: u64, mt: &mut Metrics, v: &mut Vec<Viol>) {
    let all: Vec<&'static str> = IMAGE_PROPS.to_vec();
    if r.hung() {
        let mut p = vec!["C06"];
        if m.expect == Expect::Ok { p.extend(&all); } else if let Expect::Fail(..) = m.expect { p.push("C09"); p.push("C11"); }
        v.push(Viol { props: p, msg: format!("the link does not end: {}", r.describe()) });
        return;
    }
    if r.ok() {
        let out = match r.tree.get(&m.output) { Some(Node::File { mode, data }) => (*mode, data.clone()), _ => { v.push(Viol { props: vec!["C01"], msg: format!("status 0 but there is no file at {}", m.output) }); return; } };
        if out.0 != 0o755 { v.push(Viol { props: vec!["C01"], msg: format!("status 0 but the output has mode {:o}", out.0) }); }
        match &m.expect {
            Expect::Fail(why, texts) => {
                let p: Vec<&'static str> = if why.contains("not known before") { vec!["C14", "C24"] } else if why.contains("overflow") || why.contains("indirect") || why.contains("useless") { vec!["C14"] } else if why.contains("compressed") { vec!["C12", "C14"] } else if why.contains("no directory") { vec!["C04"] } else if why.contains("too many sections") { vec!["C13"] } else if why.contains("symbols") || why.contains("definitions") { vec!["C09", "C07"] } else if why.contains("bad argument") { vec![] } else { vec!["C11"] };
                v.push(Viol { props: p, msg: format!("the link succeeded although it must fail: {} {:?}", why, texts) });
            }
            Expect::Ok | Expect::Either(_) => {
                mt.probe("links whose image was fully checked");
                let judged = std::panic::catch_unwind(|| check_image(w, m, &out.1, seed));
                let (vs, st) = match judged { Ok(x) => x, Err(_) => (vec![Viol { props: all, msg: "the image is so malformed that the reference loader cannot follow it".into() }], Stats::default()) };
                mt.stats.add(&st);
                v.extend(vs);
                mt.nontrivial += 1;
            }
            Expect::Unknown(_) => mt.probe("links not judged (damaged input)"),
        }
        return;
    }
    if r.stderr.is_empty() { v.push(Viol { props: vec!["C01", "C09", "C11"], msg: format!("the link failed without a message: {}", r.describe()) }); }
    match &m.expect {
        Expect::Ok => v.push(Viol { props: { let mut a = all; a.push("C01"); a }, msg: format!("the link must succeed but failed: {}", r.describe()) }),
        Expect::Fail(why, texts) => {
            mt.probe("links that failed as they must");
            mt.nontrivial += 1;
            let e = String::from_utf8_lossy(&r.stderr).into_owned();
            for t in texts { if !e.contains(t.as_str()) {
                let p: Vec<&'static str> = if why.contains("symbols") || why.contains("definitions") { vec!["C09"] } else if why.contains("indirect") { vec!["C14"] } else { vec!["C11"] };
                v.push(Viol { props: p, msg: format!("the link failed ({}) but the message does not name {}: {}", why, t, r.describe()) });
            } }
        }
        _ => { mt.probe("links that may fail and did"); }
    }
}

fn step_world(c: &Case, st: &Step, runs: &[Option<Run>], m: &Model) -> World {
    let mut w = c.world.clone();
    if let Some(e) = &st.env { w.env = e.clone(); }
    if let Some(a) = &st.argv { w.argv = a.clone(); }
    if let Some(k) = st.prior_from {
        w.tree.remove(&m.output);
        if let Some(Some(r)) = runs.get(k) { if let Some(n) = r.tree.get(&m.output) { w.tree.insert(m.output.clone(), n.clone()); } }
    }
    for (p, n) in &st.patch { match n { Some(n) => { w.tree.insert(p.clone(), n.clone()); } None => { w.tree.remove(p); } } }
    w
}

/// Runs the case and judges its history.
pub fn evaluate(c: &Case, srv: &mut Server, mt: &mut Metrics) -> Result<(Vec<Viol>, u64), String> {
    let m = Model::new(&c.world);
    let mut v: Vec<Viol> = vec![];
    let mut runs: Vec<Option<Run>> = vec![];
    let mut worlds: Vec<World> = vec![];
    let mut dig = 0u64;
    mt.cases += 1;
    for (i, st) in c.steps.iter().enumerate() {
        let w = step_world(c, st, &runs, &m);
        if st.also.is_some() {
            let r = crate::race::run_pair(c, st, i, srv, mt, &mut v, &mut dig)?;
            runs.push(Some(r));
            worlds.push(w);
            continue;
        }
        // a vanishing file is named by its place in the base world
        let mut plan = st.faults.clone();
        for f in plan.list.iter_mut().filter(|f| f.kind == F_VANISH) {
            let p = closed(&c.world.tree).keys().nth(f.arg as usize).cloned().unwrap_or_default();
            f.arg = entry_index(&w.tree, &p).unwrap_or(i64::MAX);
        }
        let r = srv.run(&w, &st.sched, &plan)?;
        mt.saw(&st.faults, &r);
        dig = mix(dig ^ r.digest());
        runs.push(Some(r));
        worlds.push(w);
    }
    let runs: Vec<Run> = runs.into_iter().flatten().collect();
    if runs.is_empty() { return Ok((v, dig)); }
    let seed = mix(c.seed ^ c.run.wrapping_mul(77));
    let base = &runs[0];
    let bout = base.tree.get(&m.output).cloned();
    let bfile = match &bout { Some(Node::File { data, .. }) if base.ok() => Some(data.clone()), _ => None };
    let nt0 = mt.nontrivial;
    match c.mode.as_str() {
        "image" => {
            for (i, r) in runs.iter().enumerate() {
                if c.steps[i].faults.none() { judge(&worlds[i], &m, r, seed, mt, &mut v); }
                else if r.ok() && m.expect == Expect::Ok {
                    mt.probe("links that succeeded although a fault fired");
                    judge(&worlds[i], &m, r, seed, mt, &mut v);
                }
                if i > 0 && c.steps[i].faults.none() && v.is_empty() && r.ok() != base.ok() {
                    v.push(Viol { props: vec!["C05"], msg: "outcome depends on the schedule".into() });
                }
            }
        }
        "fault" => {
            // the undisturbed link
            if m.expect == Expect::Ok && !base.ok() && !base.hung() { v.push(Viol { props: vec!["C01"], msg: format!("the undisturbed link must succeed but failed: {}", base.describe()) }); }
            if base.ok() {
                match &bout {
                    Some(Node::File { mode, data }) => {
                        if *mode != 0o755 { v.push(Viol { props: vec!["C01"], msg: format!("status 0 but the output has mode {:o}", mode) }); }
                        if let Err(e) = extents(data) { v.push(Viol { props: vec!["C01"], msg: format!("status 0 but the output is incomplete: {}", e) }); }
                    }
                    _ => v.push(Viol { props: vec!["C01"], msg: format!("status 0 but there is no file at {}", m.output) }),
                }
            }
            for (i, r) in runs.iter().enumerate() {
                let what = if i == 0 { "undisturbed".to_string() } else { format!("run {}", i) };
                let st = &c.steps[i];
                let before = &worlds[i].tree;
                if r.hung() { v.push(Viol { props: vec!["C01", "C06"], msg: format!("{}: the link does not end: {}", what, r.describe()) }); continue; }
                let disturbed = r.fired.iter().any(|f| *f) || r.quota_hits > 0 || r.alloc_failed > 0 || r.crashed();
                if disturbed { mt.nontrivial += 1; }
                let vanish = st.faults.list.iter().any(|f| f.kind == F_VANISH);
                let lookup_fault = st.faults.list.iter().any(|f| r.journal.get(f.op as usize).map(|o| !matches!(o.kind, K_OPEN | K_READ | K_WRITE | K_CHMOD | K_TRUNC | K_RENAME | K_CLOSE | K_STDERR | K_STDOUT)).unwrap_or(false) && f.kind == F_ERR);
                let now = r.tree.get(&m.output);
                if r.ok() {
                    mt.probe(if disturbed { "links that recovered from a fault" } else { "undisturbed links" });
                    if let Some(b) = &bfile {
                        match now {
                            Some(Node::File { mode, data }) => {
                                if *mode != 0o755 { v.push(Viol { props: vec!["C01"], msg: format!("{}: status 0 but the output has mode {:o}", what, mode) }); }
                                if data != b && !vanish && !lookup_fault { v.push(Viol { props: vec!["C01"], msg: format!("{}: status 0 but the output ({} bytes) is not the complete image ({} bytes){}", what, data.len(), b.len(), firstdiff(data, b)) }); }
                            }
                            _ => v.push(Viol { props: vec!["C01"], msg: format!("{}: status 0 but there is no file at {}", what, m.output) }),
                        }
                    }
                } else if !r.crashed() {
                    mt.probe("links that failed under a fault");
                    let mute = r.journal.iter().any(|o| o.kind == K_STDERR && (o.fault != 0 || o.err != 0));
                    if r.stderr.is_empty() && !mute { v.push(Viol { props: vec!["C01"], msg: format!("{}: the link failed without a message: {}", what, r.describe()) }); }
                } else { mt.probe("crashed links"); }
                // C03
                if let Some(n @ Node::File { mode, data }) = now {
                    let prior = before.get(&m.output);
                    if mode & 0o111 != 0 && !r.ok() {
                        let complete = bfile.as_ref().map(|b| b == data).unwrap_or(false);
                        if !complete && !same(prior, Some(n)) {
                            v.push(Viol { props: vec!["C03"], msg: format!("{}: {} and left an executable file (mode {:o}, {} bytes) that is neither the complete image nor what was there before ({})", what, if r.crashed() { "the link was killed".to_string() } else { format!("the link failed ({})", r.describe()) }, mode, data.len(), match prior { None => "nothing".to_string(), Some(Node::File { mode, data }) => format!("mode {:o}, {} bytes", mode, data.len()), _ => "?".into() }) });
                        }
                        if complete { mt.probe("crashed or failed links that left the complete image"); }
                    }
                    if !r.ok() && prior.is_some() { mt.probe("failed or crashed links over an earlier output"); }
                }
                // C04
                let b4 = closed(before);
                for (p, n) in &b4 {
                    if *p == m.output && !m.inputs.contains(p) { continue; }
                    let gone_by_fault = vanish && st.faults.list.iter().any(|f| f.kind == F_VANISH && entry_index(&c.world.tree, p) == Some(f.arg));
                    match r.tree.get(p) {
                        Some(x) if x == n => {}
                        _ if gone_by_fault => {}
                        // A failed lookup sends the search on: what it found instead is linked, not this file.
                        _ if *p == m.output && (lookup_fault || vanish) => {}
                        x => v.push(Viol { props: vec!["C04"], msg: format!("{}: {} changed from {} to {}", what, p, show(Some(n)), show(x)) }),
                    }
                }
                if !r.crashed() {
                    for p in r.tree.keys() { if *p != m.output && !b4.contains_key(p) { v.push(Viol { props: vec!["C04"], msg: format!("{}: the link left the new path {}", what, p) }); } }
                }
            }
        }
        "chunk" | "repro" | "log" => {
            let (props, label): (Vec<&'static str>, &str) = match c.mode.as_str() { "chunk" => (vec!["C02"], "with other transfer sizes and interruptions"), "repro" => (vec!["C05"], "under another schedule"), _ => (vec!["C22"], "with logging") };
            if base.hung() && c.mode != "repro" { v.push(Viol { props: vec!["C06"], msg: base.describe() }); return Ok((v, dig)); }
            for (i, r) in runs.iter().enumerate().skip(1) {
                let env = c.steps[i].env.as_ref().and_then(|e| e.iter().find(|x| x.0 == "RUST_LOG")).map(|x| format!(" (RUST_LOG={})", x.1)).unwrap_or_default();
                if r.short_fired + r.eintr_fired > 0 || r.fired.iter().any(|x| *x) || c.mode != "chunk" { mt.nontrivial += 1; }
                if r.hung() && !base.hung() { v.push(Viol { props: { let mut p = props.clone(); p.push("C06"); p }, msg: format!("run {} {}{} does not end: {}", i, label, env, r.describe()) }); continue; }
                if c.mode == "chunk" && !base.ok() { continue; }
                if (r.exited, r.signal, r.end) != (base.exited, base.signal, base.end) {
                    v.push(Viol { props: props.clone(), msg: format!("run {} {}{} ends with {} instead of {}", i, label, env, r.describe(), base.describe()) });
                    continue;
                }
                if base.ok() {
                    let now = r.tree.get(&m.output);
                    if now != bout.as_ref() {
                        v.push(Viol { props: props.clone(), msg: format!("run {} {}{} leaves another output file: {} instead of {}{}", i, label, env, show(now), show(bout.as_ref()), match (now, &bout) { (Some(Node::File { data: a, .. }), Some(Node::File { data: b, .. })) => firstdiff(a, b), _ => String::new() }) });
                    } else { mt.probe("identical outputs"); }
                }
            }
        }
        "relink" => {
            for (i, r) in runs.iter().enumerate().skip(1) {
                if !c.steps[i].faults.none() { if r.crashed() { mt.probe("crashed runs before a relink"); } continue; }
                mt.nontrivial += 1;
                if r.hung() { v.push(Viol { props: vec!["C23", "C06"], msg: format!("relink {} does not end: {}", i, r.describe()) }); continue; }
                if !base.ok() { continue; }
                let before = worlds[i].tree.get(&m.output);
                if r.ok() {
                    let now = r.tree.get(&m.output);
                    if now != bout.as_ref() {
                        v.push(Viol { props: vec!["C23"], msg: format!("relink {} over {} leaves {} instead of {}{}", i, show(before), show(now), show(bout.as_ref()), match (now, &bout) { (Some(Node::File { data: a, .. }), Some(Node::File { data: b, .. })) => firstdiff(a, b), _ => String::new() }) });
                    } else { mt.probe("relinks equal to a fresh link"); }
                } else {
                    // only an output the user write-protected may stop the link
                    let mut k = i;
                    let mut chain = vec![];
                    while let Some(p) = c.steps[k].prior_from { if p >= k { break; } chain.push(p); k = p; }
                    let protected = perm_err(worlds[i].tree.get(&m.output)) && chain.is_empty() || chain.iter().any(|k| perm_err(worlds[*k].tree.get(&m.output)));
                    if !protected { v.push(Viol { props: vec!["C23"], msg: format!("relink {} over {} fails: {}", i, show(before), r.describe()) }); }
                    else { mt.probe("relinks over a write-protected file"); }
                }
            }
        }
        "term" => {
            for (i, r) in runs.iter().enumerate() {
                mt.nontrivial += 1;
                if r.hung() { v.push(Viol { props: vec!["C06"], msg: format!("run {} does not end: {}", i, r.describe()) }); }
                else { mt.probe(if r.ok() { "ended with success" } else if r.exited.is_some() { "ended with an error status" } else if r.crashed() { "killed by the simulator" } else { "ended by a signal" }); }
            }
        }
        "torn" => {
            if !base.ok() || m.expect != Expect::Ok { mt.probe("worlds whose intact link fails"); return Ok((v, dig)); }
            for (i, r) in runs.iter().enumerate().skip(1) {
                mt.nontrivial += 1;
                if r.hung() { v.push(Viol { props: vec!["C21", "C06"], msg: format!("run {} with a damaged input does not end: {}", i, r.describe()) }); continue; }
                if r.ok() {
                    let now = r.tree.get(&m.output);
                    if now != bout.as_ref() {
                        let (p, d) = match c.steps[i].patch.first() { Some((p, Some(n))) => (p.clone(), damage(c.world.tree.get(p), n)), _ => (String::new(), String::new()) };
                        v.push(Viol { props: vec!["C21"], msg: format!("run {}: {} is {}, the link reports success with another image: {} instead of {}", i, p, d, show(now), show(bout.as_ref())) });
                    } else { mt.probe("damage in a part that is not needed"); }
                } else { mt.probe("damaged input refused"); }
            }
        }
        "swap" => crate::race::judge_swap(c, &m, &runs, mt, &mut v),
        "cmdline" => crate::cmdline::judge_cmdline(c, &m, &worlds, &runs, mt, &mut v),
        "pair" => {}
        x => return Err(format!("unknown mode {}", x)),
    }
    if mt.nontrivial > nt0 {
        let mut h = 3u64;
        for r in &runs { h = mix(h ^ r.schedule_shape()); }
        if let Some(w) = worlds.first() { h = mix(h ^ hash_str(&w.argv.join(" "))); for (p, n) in &w.tree { h = mix(h ^ hash_str(p)); if let Node::File { data, .. } = n { h = mix(h ^ hash_bytes(data)); } } }
        mt.cases_seen.insert(h);
    }
    Ok((v, dig))
}

fn damage(a: Option<&Node>, b: &Node) -> String {
    match (a, b) {
        (Some(Node::File { data: x, .. }), Node::File { data: y, .. }) => if y.len() < x.len() { format!("cut from {} to {} bytes", x.len(), y.len()) } else {
            let d: Vec<String> = (0..x.len().min(y.len())).filter(|i| x[*i] != y[*i]).take(4).map(|i| format!("byte {:#x} {:02x}->{:02x}", i, x[i], y[i])).collect();
            format!("changed ({})", d.join(", "))
        },
        _ => "replaced".into(),
    }
}

fn extents(b: &[u8]) -> Result<(), String> {
    use crate::elf::*;
    if b.len() < 64 || &b[..4] != b"\x7fELF" { return Err(format!("{} bytes without an ELF header", b.len())); }
    let (ph, sh) = (g64(b, 32).unwrap(), g64(b, 40).unwrap());
    let (pn, sn) = (g16(b, 56).unwrap(), g16(b, 60).unwrap());
    let n = b.len() as u64;
    if ph.saturating_add(pn * 56) > n || sh.saturating_add(sn * 64) > n { return Err(format!("header tables at {:#x} and {:#x} lie outside its {} bytes", ph, sh, n)); }
    for i in 0..sn {
        let o = (sh + 64 * i) as usize;
        let (t, off, size) = (g32(b, o + 4).unwrap(), g64(b, o + 24).unwrap(), g64(b, o + 32).unwrap());
        if t != 8 && t != 0 && off.saturating_add(size) > n { return Err(format!("section {} [{:#x}, +{:#x}) lies outside its {} bytes", i, off, size, n)); }
    }
    Ok(())
}

fn firstdiff(a: &[u8], b: &[u8]) -> String {
    match (0..a.len().min(b.len())).find(|i| a[*i] != b[*i]) {
        Some(i) => format!(", first difference at byte {:#x}", i),
        None => if a.len() != b.len() { format!(", one is a prefix of the other ({} and {} bytes)", a.len(), b.len()) } else { String::new() },
    }
}
pub fn show(n: Option<&Node>) -> String {
    match n {
        None => "nothing".into(),
        Some(Node::File { mode, data }) => format!("a file of {} bytes, mode {:o}", data.len(), mode),
        Some(Node::Dir) => "a directory".into(),
        Some(Node::Link(l)) => format!("a link to {}", l),
    }
}
