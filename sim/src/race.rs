//! Links that are not alone: an input is replaced by another program while the link runs (C25), and
//! two links run at the same time on one disk (C26).
use crate::case::*;
use crate::elf::*;
use crate::gen::*;
use crate::model::*;
use crate::oracle::Viol;
use crate::rng::*;
use crate::world::*;
use std::sync::Arc;

/// Another version of an input file: as a rule of the same kind and still linkable.
fn version(rng: &mut Rng, w: &World, path: &str, d: &[u8]) -> Vec<u8> {
    if rng.chance(10) {
        let v: Vec<&Arc<Vec<u8>>> = w.tree.iter().filter(|(p, _)| *p != path).filter_map(|(_, n)| match n { Node::File { data, .. } => Some(data), _ => None }).collect();
        if !v.is_empty() { return rng.pick(&v).to_vec(); }
    }
    let mut o = d.to_vec();
    let heads: Vec<usize> = if d.starts_with(b"!<arch>\n") { crate::oracle::find_all(d, b"\x7fELF\x02\x01") } else if d.starts_with(b"\x7fELF") { vec![0] } else { vec![] };
    if heads.is_empty() {
        // a script: the names in another order, or one fewer
        let t = String::from_utf8_lossy(d).into_owned();
        if let (Some(a), Some(b)) = (t.find('('), t.rfind(')')) {
            if a < b && !t[a + 1..b].contains('(') {
                let mut n: Vec<&str> = t[a + 1..b].split_whitespace().collect();
                if n.len() > 1 && rng.chance(50) { let k = rng.below(n.len() as u64) as usize; n.remove(k); } else { n.reverse(); }
                return format!("{} {} {}", &t[..a + 1], n.join(" "), &t[b..]).into_bytes();
            }
        }
        return o;
    }
    for h in heads {
        let e = match parse(&d[h..]) { Some(e) => e, None => continue };
        for s in &e.secs {
            let at = h + s.off as usize;
            let n = s.data.len();
            if n == 0 || at + n > o.len() { continue; }
            match s.typ {
                SHT_PROGBITS if rng.chance(70) => for _ in 0..rng.range(1, 4) { let k = rng.below(n as u64) as usize; o[at + k] ^= 1 << rng.below(8); },
                SHT_RELA if rng.chance(50) => for k in 0..n / 24 { if rng.chance(30) { o[at + 24 * k + 16] ^= 1 << rng.below(4); } },
                // sizes of symbols; in a library those of objects to be copied
                SHT_SYMTAB | SHT_DYNSYM if rng.chance(50) => for k in 1..n / 24 { if rng.chance(30) && o[at + 24 * k + 17] == 0 && o[at + 24 * k + 16] != 0 { o[at + 24 * k + 16] = o[at + 24 * k + 16].wrapping_add(8) | 8; } },
                _ => {}
            }
        }
    }
    o
}

pub fn build_swap(rng: &mut Rng, srv: &mut Server, seed: u64, run: u64) -> Result<Case, String> {
    let p = *rng.pick(&["C07", "C08", "C10", "C10", "C11", "C12", "C14", "C15", "C16", "C18", "C19", "C20", "C24", ""]);
    let w = image_world(rng, p).world;
    let m = Model::new(&w);
    let s = calm(rng);
    let base = srv.run(&w, &s, &Faults::default())?;
    let mut steps = vec![Step { sched: s.clone(), ..Default::default() }];
    // files that the command line and its scripts name once
    let files: Vec<String> = m.named.iter().filter(|(p, n)| **n == 1 && matches!(w.tree.get(*p), Some(Node::File { .. }))).map(|x| x.0.clone()).collect();
    if !files.is_empty() && base.nops > 0 {
        let p = rng.pick(&files).clone();
        let old = match &w.tree[&p] { Node::File { data, .. } => data.clone(), _ => unreachable!() };
        let new = Arc::new(version(rng, &w, &p, &old));
        steps.push(Step { sched: s.clone(), patch: vec![(p.clone(), Some(Node::File { mode: 0o644, data: new.clone() }))], ..Default::default() });
        let touch: Vec<u64> = (0..base.journal.len()).filter(|i| base.op_paths.get(&base.journal[*i].ino).map(|x| *x == p).unwrap_or(false)).map(|i| i as u64).collect();
        for _ in 0..rng.range(4, 9) {
            let mut st = Step { sched: s.clone(), ..Default::default() };
            let op = if !touch.is_empty() && rng.chance(75) { let t = *rng.pick(&touch); if rng.chance(50) { t } else { t + 1 } } else { rng.below(base.nops) };
            st.faults.alts = vec![(p.clone(), new.clone())];
            st.faults.list.push(Fault { op, kind: F_REPLACE, err: 0, arg: 0 });
            if rng.chance(25) { st.sched.io_seed = rng.u64(); st.sched.short = *rng.pick(&[100, 700]); st.sched.eintr = *rng.pick(&[0, 100]); }
            steps.push(st);
        }
    }
    Ok(Case { property: "C25".into(), seed, run, mode: "swap".into(), world: w, steps })
}

pub fn judge_swap(c: &Case, m: &Model, runs: &[Run], mt: &mut Metrics, v: &mut Vec<Viol>) {
    let out = |r: &Run| r.tree.get(&m.output).cloned();
    let outs: Vec<Option<Node>> = runs.iter().take(2).filter(|r| r.ok()).map(out).collect();
    if outs.is_empty() { mt.probe("inputs that link in neither version"); }
    for (i, r) in runs.iter().enumerate().skip(2) {
        let fired = r.fired.iter().any(|f| *f);
        if !fired { continue; }
        mt.nontrivial += 1;
        let at = c.steps[i].faults.list.first().map(|f| f.op).unwrap_or(0);
        let name = c.steps[i].faults.alts.first().map(|a| a.0.clone()).unwrap_or_default();
        if r.hung() { v.push(Viol { props: vec!["C25", "C06"], msg: format!("run {}: {} is replaced before call {} and the link does not end: {}", i, name, at, r.describe()) }); continue; }
        if !r.ok() { mt.probe("replaced while linking: refused"); continue; }
        let now = out(r);
        match outs.iter().position(|o| *o == now) {
            Some(k) => mt.probe(if outs.len() == 2 && outs[0] == outs[1] { "replaced while linking: versions without a difference" } else if k == 0 && runs[0].ok() { "replaced while linking: linked as it was" } else { "replaced while linking: linked as it became" }),
            None => v.push(Viol { props: vec!["C25"], msg: format!("run {}: {} is replaced before call {} and the link succeeds with {}, which is the image neither of the earlier nor of the later version", i, name, at, show(now.as_ref())) }),
        }
    }
}

/// The command line with another output, if it can be told.
fn redirect(argv: &[String], to: &str) -> Vec<String> {
    let mut v = vec![];
    let mut i = 0;
    while i < argv.len() {
        if argv[i] == "-o" && i + 1 < argv.len() { i += 2; continue; }
        v.push(argv[i].clone());
        i += 1;
    }
    v.push("-o".into());
    v.push(to.into());
    v
}

pub fn build_pair(rng: &mut Rng, srv: &mut Server, seed: u64, run: u64) -> Result<Case, String> {
    let p = if rng.chance(12) { "C09" } else { any_profile(rng) };
    let mut w = image_world(rng, p).world;
    // outputs that have part of their names in common
    let (a, b) = *rng.pick(&[("prog", "prog2"), ("prog.a", "prog.b"), ("x1/prog", "x2/prog"), ("prog", "x1/prog"), ("app.debug", "app.release"), ("prog", "prog.tmp"), ("prog", "prog~"), ("prog", ".prog"), ("a", "b"),
        ("prog.tmp", "prog"), ("x1/a.out", "x1/b.out"), ("app.v1", "app.v2"), ("prog", "prog.new")]);
    let free = |w: &World, n: &str| !w.tree.contains_key(&format!("{}/{}", w.cwd.trim_end_matches('/'), n));
    if !free(&w, a) || !free(&w, b) { return Ok(Case { property: "C26".into(), seed, run, mode: "pair".into(), world: w, steps: vec![] }); }
    for d in ["x1", "x2"] { let q = format!("{}/{}", w.cwd.trim_end_matches('/'), d); w.tree.entry(q).or_insert(Node::Dir); }
    let other = {
        let mut v = redirect(&w.argv, b);
        match rng.below(5) {
            // a different program from the same files
            0 => { if v.len() > 4 { let k = rng.below(v.len() as u64 - 2) as usize; v.remove(k); } }
            1 => v.insert(0, rng.pick(&["--hash-style=sysv", "--hash-style=gnu", "--as-needed"]).to_string()),
            2 => { // objects in another order
                let k: Vec<usize> = (0..v.len()).filter(|i| v[*i].ends_with(".o")).collect();
                if k.len() > 1 { let (x, y) = (*rng.pick(&k), *rng.pick(&k)); v.swap(x, y); }
            }
            _ => {}
        }
        v
    };
    w.argv = redirect(&w.argv, a);
    // trees that were copied as links have one file for both outputs
    let linked = rng.chance(10);
    if linked {
        let full = |n: &str| format!("{}/{}", w.cwd.trim_end_matches('/'), n);
        let (pa, pb) = (full(a), full(b));
        if let Some(n) = crate::case::prior(rng, None) { w.tree.insert(pa.clone(), n.clone()); w.tree.insert(pb.clone(), n); }
        w.hard.push((pa, pb));
    }
    let s = sched(rng, false);
    let mut s2 = sched(rng, false);
    if s2.pid == s.pid { s2.pid += 1; }
    // links started by one make begin within the same second
    if rng.chance(70) { s2.clock = s.clock; }
    let w2 = World { argv: other.clone(), ..w.clone() };
    let (ra, rb) = (srv.run(&w, &s, &Faults::default())?, srv.run(&w2, &s2, &Faults::default())?);
    let (ma, mb) = (Model::new(&w), Model::new(&w2));
    if ma.output == mb.output || ma.inputs.contains(&mb.output) || mb.inputs.contains(&ma.output) || ra.hung() || rb.hung() { return Ok(Case { property: "C26".into(), seed, run, mode: "pair".into(), world: w, steps: vec![] }); }
    let mut steps = vec![];
    for _ in 0..rng.range(3, 6) {
        let mut st = Step { sched: s.clone(), ..Default::default() };
        let mut o = Other { argv: other.clone(), sched: s2.clone(), faults: Faults::default(), first: rng.below(2), switches: vec![] };
        let total = ra.nops + rb.nops + 2;
        match rng.below(4) {
            0 => for _ in 0..rng.range(1, 10) { o.switches.push(rng.below(total)); },
            // one stops anywhere, the other runs to its end
            1 => o.switches.push(rng.below(if o.first == 0 { ra.nops } else { rb.nops } + 1)),
            // in lockstep
            2 => { let (from, period) = (rng.below(total), rng.range(1, 4) as u64); let mut k = from; while k < total && o.switches.len() < 200 { o.switches.push(k); k += period; } }
            // around the writing of the outputs, at the end of either
            _ => { let n = if o.first == 0 { ra.nops } else { rb.nops }; for _ in 0..rng.range(1, 4) { o.switches.push(n.saturating_sub(rng.below(30))); } for _ in 0..rng.range(1, 4) { o.switches.push(total.saturating_sub(rng.below(40))); } }
        }
        o.switches.sort();
        o.switches.dedup();
        if !linked && rng.chance(35) { o.faults = plan(rng, &rb, &mb.output, &w2, "C03"); o.faults.quota = -1; }
        if !linked && rng.chance(15) { st.faults = plan(rng, &ra, &ma.output, &w, "C03"); st.faults.quota = -1; }
        if rng.chance(20) { st.sched.io_seed = rng.u64(); st.sched.short = 300; o.sched.io_seed = rng.u64(); o.sched.short = 300; }
        st.also = Some(o);
        steps.push(st);
    }
    Ok(Case { property: "C26".into(), seed, run, mode: "pair".into(), world: w, steps })
}

/// Runs both links of a step alone and together.  Returns the run of the first.
pub fn run_pair(c: &Case, st: &Step, i: usize, srv: &mut Server, mt: &mut Metrics, v: &mut Vec<Viol>, dig: &mut u64) -> Result<Run, String> {
    let o = st.also.as_ref().unwrap();
    let w = &c.world;
    let w2 = World { argv: o.argv.clone(), ..w.clone() };
    let (ma, mb) = (Model::new(w), Model::new(&w2));
    let alone = [srv.run(w, &st.sched, &st.faults)?, srv.run(&w2, &o.sched, &o.faults)?];
    let (ra, rb) = srv.run_pair(w, &st.sched, &st.faults, o)?;
    mt.saw(&st.faults, &ra);
    mt.saw(&o.faults, &rb);
    for r in [&alone[0], &alone[1], &ra, &rb] { *dig = mix(*dig ^ r.digest()); }
    if ma.output == mb.output || ma.inputs.contains(&mb.output) || mb.inputs.contains(&ma.output) { return Ok(ra); }
    if alone.iter().any(|r| r.hung()) { return Ok(ra); }
    mt.nontrivial += 1;
    *mt.fired.entry("two links interleaved".into()).or_insert(0) += 1;
    let before = closed(&w.tree);
    let mut ended = true;
    for (k, (r, out)) in [(&ra, &ma.output), (&rb, &mb.output)].into_iter().enumerate() {
        let x = &alone[k];
        ended &= !r.crashed();
        let who = format!("step {}: the {} of two links at the same time", i, ["first", "second"][k]);
        if r.hung() { v.push(Viol { props: vec!["C26", "C06"], msg: format!("{} does not end: {}", who, r.describe()) }); continue; }
        if (r.exited, r.signal, r.end) != (x.exited, x.signal, x.end) { v.push(Viol { props: vec!["C26"], msg: format!("{} ends with {}; alone it ends with {}", who, r.describe(), x.describe()) }); continue; }
        let (now, want) = (r.tree.get(out), x.tree.get(out));
        // a file that is one with another may have been replaced or emptied by a link that failed
        let emptied = |n: Option<&Node>| matches!(n, Some(Node::File { mode, data }) if data.is_empty() && mode & 0o111 == 0);
        if !w.hard.is_empty() && !x.ok() && emptied(now) && emptied(want) { continue; }
        if now != want { v.push(Viol { props: vec!["C26"], msg: format!("{} leaves {} at {}; alone it leaves {}", who, show(now), out, show(want)) }); }
        mt.probe(if x.ok() { "links that succeed beside another" } else if x.crashed() { "links that crash beside another" } else { "links that fail beside another" });
    }
    for (p, n) in &before {
        if *p == ma.output || *p == mb.output { continue; }
        if ra.tree.get(p) != Some(n) { v.push(Viol { props: vec!["C26", "C04"], msg: format!("step {}: two links at the same time change {} from {} to {}", i, p, show(Some(n)), show(ra.tree.get(p))) }); }
    }
    if ended { for p in ra.tree.keys() { if *p != ma.output && *p != mb.output && !before.contains_key(p) { v.push(Viol { props: vec!["C26", "C04"], msg: format!("step {}: two links at the same time leave the new path {}", i, p) }); } } }
    Ok(ra)
}
