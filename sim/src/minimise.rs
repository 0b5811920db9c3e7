//! Shrinks a failing case while the same violation persists.
use crate::case::*;
use crate::world::*;
use std::time::{Duration, Instant};

/// The class of a violation: its message without numbers and quoted particulars.
pub fn signature(m: &str) -> String {
    let mut o = String::new();
    for w in m.split_whitespace() {
        if w.chars().any(|c| c.is_ascii_digit()) || w.contains('/') { if !o.ends_with("# ") { o += "# "; } continue; }
        o += w;
        o += " ";
    }
    o.chars().take(140).collect()
}

struct Ctx<'a> { prop: &'a str, sig: String, srv: &'a mut Server, end: Instant, tried: usize }

impl<'a> Ctx<'a> {
    fn fails(&mut self, c: &Case) -> Option<String> {
        if Instant::now() > self.end { return None; }
        self.tried += 1;
        let mut mt = Metrics::default();
        match evaluate(c, self.srv, &mut mt) {
            Ok((v, _)) => v.into_iter().find(|x| x.props.contains(&self.prop) && signature(&x.msg) == self.sig).map(|x| x.msg),
            Err(_) => None,
        }
    }
}

pub fn minimise(c: Case, prop: &str, msg: &str, srv: &mut Server, budget: Duration) -> (Case, String, usize) {
    let mut cx = Ctx { prop, sig: signature(msg), srv, end: Instant::now() + budget, tried: 0 };
    let mut best = c;
    let mut bm = msg.to_string();
    loop {
        let mut progress = false;
        let mut attempt = |cx: &mut Ctx, best: &mut Case, bm: &mut String, cand: Case| -> bool {
            if let Some(m) = cx.fails(&cand) { *best = cand; *bm = m; progress = true; true } else { false }
        };
        // runs
        let mut i = best.steps.len();
        while i > 0 {
            i -= 1;
            if best.steps.len() == 1 || (i == 0 && best.mode != "image" && best.mode != "term" && best.mode != "pair" || i == 1 && best.mode == "swap") { continue; }
            let mut cand = best.clone();
            cand.steps.remove(i);
            let mut okay = true;
            for s in &mut cand.steps { match s.prior_from { Some(p) if p == i => okay = false, Some(p) if p > i => s.prior_from = Some(p - 1), _ => {} } }
            if okay { attempt(&mut cx, &mut best, &mut bm, cand); }
        }
        // faults
        for i in 0..best.steps.len() {
            let mut k = best.steps[i].faults.list.len();
            while k > 0 { k -= 1; let mut cand = best.clone(); cand.steps[i].faults.list.remove(k); attempt(&mut cx, &mut best, &mut bm, cand); }
            if best.steps[i].faults.quota >= 0 { let mut cand = best.clone(); cand.steps[i].faults.quota = -1; attempt(&mut cx, &mut best, &mut bm, cand); }
            if best.steps[i].faults.alloc_fail >= 0 { let mut cand = best.clone(); cand.steps[i].faults.alloc_fail = -1; attempt(&mut cx, &mut best, &mut bm, cand); }
            if !best.steps[i].patch.is_empty() && best.mode != "torn" { let mut cand = best.clone(); cand.steps[i].patch.clear(); attempt(&mut cx, &mut best, &mut bm, cand); }
        }
        // turns
        for i in 0..best.steps.len() {
            if best.steps[i].also.is_none() { continue; }
            let n = |b: &Case| b.steps[i].also.as_ref().unwrap().switches.len();
            let mut size = n(&best).next_power_of_two();
            while size > 0 {
                let mut k = 0;
                while k < n(&best) {
                    let mut cand = best.clone();
                    let o = cand.steps[i].also.as_mut().unwrap();
                    let end = (k + size).min(o.switches.len());
                    o.switches.drain(k..end);
                    if !attempt(&mut cx, &mut best, &mut bm, cand) { k += size; }
                }
                size /= 2;
            }
            let mut cand = best.clone();
            cand.steps[i].also.as_mut().unwrap().faults = Faults::default();
            attempt(&mut cx, &mut best, &mut bm, cand);
        }
        // schedules
        for i in 0..best.steps.len() {
            if best.steps[i].sched.short != 0 || best.steps[i].sched.eintr != 0 { let mut cand = best.clone(); let s = &mut cand.steps[i].sched; s.short = 0; s.eintr = 0; s.io_seed = 0; attempt(&mut cx, &mut best, &mut bm, cand); }
            if best.steps[i].sched.heap_seed != 0 { let mut cand = best.clone(); cand.steps[i].sched.heap_seed = 0; attempt(&mut cx, &mut best, &mut bm, cand); }
            if best.steps[i].sched.clock != 1_700_000_000 || best.steps[i].sched.pid != 1000 { let mut cand = best.clone(); cand.steps[i].sched.clock = 1_700_000_000; cand.steps[i].sched.pid = 1000; attempt(&mut cx, &mut best, &mut bm, cand); }
        }
        // arguments: long chunks first
        let mut size = 4;
        while size > 0 {
            let mut i = 0;
            while i + size <= best.world.argv.len() {
                let mut cand = best.clone();
                let gone: Vec<String> = cand.world.argv.drain(i..i + size).collect();
                for s in cand.steps.iter_mut() { if let Some(o) = s.also.as_mut() { for g in &gone { if g != "-o" { if let Some(k) = o.argv.iter().position(|x| x == g) { o.argv.remove(k); } } } } }
                if !attempt(&mut cx, &mut best, &mut bm, cand) { i += 1; }
            }
            size /= 2;
        }
        // files
        for p in best.world.tree.keys().cloned().collect::<Vec<_>>() {
            let mut cand = best.clone();
            cand.world.tree.remove(&p);
            attempt(&mut cx, &mut best, &mut bm, cand);
        }
        // relocations and symbols of the objects: turn them into nothing
        for p in best.world.tree.keys().cloned().collect::<Vec<_>>() {
            let n = match best.world.tree.get(&p) { Some(Node::File { data, .. }) => rela_entries(data).len(), _ => 0 };
            let mut size = n.next_power_of_two();
            while size > 0 && n > 0 {
                let mut i = 0;
                while i < n {
                    let mut cand = best.clone();
                    if let Some(Node::File { data, .. }) = cand.world.tree.get_mut(&p) {
                        let mut d = data.to_vec();
                        let e = rela_entries(&d);
                        let mut ch = false;
                        for o in e.iter().skip(i).take(size) { if d[*o + 8..*o + 16].iter().any(|b| *b != 0) { d[*o + 8..*o + 24].fill(0); ch = true; } }
                        if ch { *data = std::sync::Arc::new(d); attempt(&mut cx, &mut best, &mut bm, cand); }
                    }
                    i += size;
                }
                size /= 2;
            }
        }
        if !progress || Instant::now() > cx.end { break; }
    }
    (best, bm, cx.tried)
}

/// File offsets of the relocation entries of an object.
fn rela_entries(d: &[u8]) -> Vec<usize> {
    use crate::elf::*;
    let mut v = vec![];
    if !d.starts_with(b"\x7fELF") || d.len() < 64 || d[16] != 1 { return v; }
    let (sh, n) = (g64(d, 40).unwrap() as usize, g16(d, 60).unwrap() as usize);
    for i in 0..n {
        let o = sh + 64 * i;
        if g32(d, o + 4) != Some(4) { continue; }
        if let (Some(off), Some(size)) = (g64(d, o + 24), g64(d, o + 32)) {
            for k in 0..size / 24 { let e = (off + 24 * k) as usize; if e + 24 <= d.len() { v.push(e); } }
        }
    }
    v
}
