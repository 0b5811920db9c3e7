//! The command line means what `dld --help` says (C27).
use crate::case::*;
use crate::gen::*;
use crate::image::*;
use crate::model::*;
use crate::oracle::Viol;
use crate::rng::*;
use crate::world::*;

/// The pieces of a command line: options with their argument, inputs, and the as-needed switches.
#[derive(Clone, Debug, PartialEq)]
enum Piece { Opt(Vec<String>), Dir(String), Input(String), Lib(String), Needed(bool) }

fn pieces(argv: &[String]) -> Vec<Piece> {
    let mut v = vec![];
    let mut i = 0;
    while i < argv.len() {
        let a = &argv[i];
        let n = argv.get(i + 1);
        i += 1;
        match (a.as_str(), n) {
            ("-o" | "-m" | "-z" | "-dynamic-linker" | "--hash-style", Some(n)) => { v.push(Piece::Opt(vec![a.clone(), n.clone()])); i += 1; }
            ("--build-id", Some(n)) if !n.starts_with('-') => { v.push(Piece::Opt(vec![a.clone(), n.clone()])); i += 1; }
            ("-L", Some(n)) => { v.push(Piece::Dir(n.clone())); i += 1; }
            ("-l", Some(n)) => { v.push(Piece::Lib(n.clone())); i += 1; }
            ("--as-needed", _) => v.push(Piece::Needed(true)),
            ("--no-as-needed", _) => v.push(Piece::Needed(false)),
            ("--eh-frame-hdr" | "--start-group" | "--end-group" | "--build-id" | "-h" | "--help", _) => v.push(Piece::Opt(vec![a.clone()])),
            _ if a.starts_with("--hash-style=") => v.push(Piece::Opt(vec![a.clone()])),
            _ if a.starts_with("-L") => v.push(Piece::Dir(a[2..].into())),
            _ if a.starts_with("-l") => v.push(Piece::Lib(a[2..].into())),
            _ => v.push(Piece::Input(a.clone())),
        }
    }
    v
}

/// The same command in other words.
fn respell(rng: &mut Rng, w: &World) -> Vec<String> {
    let mut p = pieces(&w.argv);
    // options that stand for themselves go anywhere; where one is given twice the later one counts
    for _ in 0..rng.below(4) {
        let k: Vec<usize> = (0..p.len()).filter(|i| matches!(p[*i], Piece::Opt(_))).collect();
        if k.is_empty() { break; }
        let i = *rng.pick(&k);
        let x = p.remove(i);
        let kind = |x: &Piece| match x { Piece::Opt(v) => v[0].split('=').next().unwrap().to_string(), _ => String::new() };
        let (lo, hi) = ((0..i).rev().find(|j| kind(&p[*j]) == kind(&x)).map(|j| j + 1).unwrap_or(0), (i..p.len()).find(|j| kind(&p[*j]) == kind(&x)).unwrap_or(p.len()));
        p.insert(rng.range(lo, hi), x);
    }
    // the order of -L counts, their place does not
    if rng.chance(40) {
        let d: Vec<Piece> = p.iter().filter(|x| matches!(x, Piece::Dir(_))).cloned().collect();
        p.retain(|x| !matches!(x, Piece::Dir(_)));
        let mut at = 0;
        for x in d { at = rng.range(at, p.len()); p.insert(at, x); at += 1; }
    }
    for _ in 0..rng.below(4) {
        let at = rng.range(0, p.len());
        match rng.below(7) {
            0 => p.insert(at, Piece::Opt(vec![rng.pick(&["--start-group", "--end-group"]).to_string()])),
            1 => p.insert(at, Piece::Opt(vec!["-m".into(), "elf_x86_64".into()])),
            2 => p.insert(at, Piece::Opt(vec!["-z".into(), rng.pick(&["relro", "now", "noexecstack", "max-page-size=4096"]).to_string()])),
            3 => p.insert(0, Piece::Opt(vec!["-o".into(), "/nowhere/at/all".into()])),
            4 => p.insert(0, Piece::Opt(vec![format!("--hash-style={}", rng.pick(&["sysv", "gnu", "both"]))])),
            5 => p.insert(0, Piece::Opt(vec!["-dynamic-linker".into(), "/lib/other.so".into()])),
            _ => {
                // a switch of as-needed that nothing sees
                let cur = p[..at].iter().rev().find_map(|x| match x { Piece::Needed(b) => Some(*b), _ => None }).unwrap_or(false);
                p.insert(at, Piece::Needed(cur));
                if rng.chance(50) { p.insert(at, Piece::Needed(!cur)); }
            }
        }
    }
    // what the overriding options were overridden with has to be said
    let says = |p: &[Piece], o: &str| p.iter().filter(|x| matches!(x, Piece::Opt(v) if v[0].split('=').next() == Some(o))).count();
    let m = Model::new(w);
    if says(&pieces(&w.argv), "-o") == 0 && says(&p, "-o") > 0 { p.push(Piece::Opt(vec!["-o".into(), "./out".into()])); }
    if says(&pieces(&w.argv), "--hash-style") == 0 && says(&p, "--hash-style") > 0 { p.push(Piece::Opt(vec!["--hash-style=both".into()])); }
    if says(&pieces(&w.argv), "-dynamic-linker") == 0 && says(&p, "-dynamic-linker") > 0 { p.push(Piece::Opt(vec!["-dynamic-linker".into(), m.interp.clone()])); }
    // an input right after --build-id would be its style
    for i in 0..p.len() {
        let input = matches!(p.get(i + 1), Some(Piece::Input(_)));
        if let Piece::Opt(o) = &mut p[i] { if o[0] == "--build-id" && o.len() == 1 && input { o.push("sha1".into()); } }
    }
    let mut v = vec![];
    for x in p {
        match x {
            Piece::Opt(mut o) => {
                if o[0].starts_with("--hash-style") && rng.chance(50) {
                    let s = if o.len() == 2 { o[1].clone() } else { o[0][13..].into() };
                    o = if o.len() == 2 { vec![format!("--hash-style={}", s)] } else { vec!["--hash-style".into(), s] };
                }
                v.extend(o);
            }
            Piece::Dir(d) => if !d.is_empty() && rng.chance(50) { v.push(format!("-L{}", d)) } else { v.push("-L".into()); v.push(d) },
            Piece::Lib(l) => if !l.is_empty() && rng.chance(50) { v.push(format!("-l{}", l)) } else { v.push("-l".into()); v.push(l) },
            Piece::Needed(b) => v.push(if b { "--as-needed".into() } else { "--no-as-needed".into() }),
            Piece::Input(f) => {
                let full = format!("{}/{}", w.cwd.trim_end_matches('/'), f);
                v.push(if !f.starts_with('/') && matches!(w.tree.get(&full), Some(Node::File { .. })) { match rng.below(4) { 0 => full, 1 => format!("./{}", f), 2 => format!(".//{}", f), _ => f } } else { f });
            }
        }
    }
    v
}

/// A command line that has to be refused, and the word that the message is about.
fn spoil(rng: &mut Rng, w: &World) -> (Vec<String>, String) {
    let p = pieces(&w.argv);
    let mut v: Vec<Vec<String>> = p.into_iter().map(|x| match x {
        Piece::Opt(o) => o, Piece::Dir(d) => vec!["-L".into(), d], Piece::Lib(l) => vec!["-l".into(), l], Piece::Input(f) => vec![f], Piece::Needed(b) => vec![if b { "--as-needed".into() } else { "--no-as-needed".into() }],
    }).collect();
    let at = rng.range(0, v.len());
    let what = match rng.below(6) {
        5 => { let s = rng.pick(&["", "/", "..", "/lib64/..", "a/../.."]).to_string(); v.insert(at, vec!["-dynamic-linker".into(), s]); "-dynamic-linker".into() }
        0 => { let o = rng.pick(&["-o", "-m", "-L", "-l", "-dynamic-linker", "-z", "--hash-style"]).to_string(); v.push(vec![o.clone()]); if o == "--hash-style" { String::new() } else { o } }
        1 => { let s = rng.pick(&["", "GNU", "gnu,sysv", "none", "sys", "both "]).to_string(); v.insert(at, if rng.chance(50) || s.is_empty() { vec![format!("--hash-style={}", s)] } else { vec!["--hash-style".into(), s] }); "hash style".into() }
        2 => { let s = rng.pick(&["elf_i386", "elf64_x86_64", "ELF_X86_64", "aarch64linux"]).to_string(); v.insert(at, vec!["-m".into(), s]); "emulation".into() }
        3 => { let s = rng.pick(&["sha256", "SHA1", "crc", "x01"]).to_string(); v.insert(at, vec!["--build-id".into(), s]); "build id".into() }
        _ => { let s = rng.pick(&["--frobnicate", "-shared-not", "--as-neede", "--no-undefined", "-r", "--output", "-O2", "--start"]).to_string(); v.insert(at, vec![s.clone()]); s }
    };
    (v.into_iter().flatten().collect(), what)
}

pub fn build_cmdline(rng: &mut Rng, srv: &mut Server, seed: u64, run: u64) -> Result<Case, String> {
    let p = if rng.chance(10) { "C09" } else if rng.chance(30) { "C11" } else if rng.chance(30) { "C18" } else { any_profile(rng) };
    let w = image_world(rng, p).world;
    let _ = srv;
    let s = calm(rng);
    let mut steps = vec![Step { sched: s.clone(), ..Default::default() }];
    for _ in 0..rng.range(3, 6) {
        let mut st = Step { sched: if rng.chance(30) { sched(rng, false) } else { s.clone() }, ..Default::default() };
        let (what, argv) = match rng.below(10) {
            0..=5 => ("same".to_string(), respell(rng, &w)),
            6 | 7 => { let (v, m) = spoil(rng, &w); (format!("bad {}", m), v) }
            8 => { let mut v = w.argv.clone(); let h = rng.pick(&["-h", "--help"]).to_string(); if rng.chance(50) { v.clear(); v.push(h) } else { let at = pieces(&v); let k = rng.range(0, at.len()); let mut u: Vec<String> = vec![]; for (i, x) in at.into_iter().enumerate() { if i == k { u.push(h.clone()); } u.extend(flat(x)); } if k >= u.len() || !u.contains(&h) { u.push(h); } v = u; } ("help".to_string(), v) }
            _ => {
                let mut v = vec![];
                let mut done = false;
                for x in pieces(&w.argv) { match x { Piece::Opt(o) if o[0] == "-o" => if !done { done = true; v.extend(vec!["-o".into(), "/w/another name".into()]); }, x => v.extend(flat(x)) } }
                if !done { v.push("-o".into()); v.push("/w/another name".into()); }
                ("elsewhere".to_string(), v)
            }
        };
        st.argv = Some(argv);
        st.note = what;
        steps.push(st);
    }
    Ok(Case { property: "C27".into(), seed, run, mode: "cmdline".into(), world: w, steps })
}

fn flat(x: Piece) -> Vec<String> {
    match x { Piece::Opt(o) => o, Piece::Dir(d) => vec!["-L".into(), d], Piece::Lib(l) => vec!["-l".into(), l], Piece::Input(f) => vec![f], Piece::Needed(b) => vec![if b { "--as-needed".into() } else { "--no-as-needed".into() }] }
}

pub fn judge_cmdline(c: &Case, m: &Model, worlds: &[World], runs: &[Run], mt: &mut Metrics, v: &mut Vec<Viol>) {
    let base = &runs[0];
    let bout = base.tree.get(&m.output);
    let mut bad = |msg: String| v.push(Viol { props: vec!["C27"], msg });
    for (i, r) in runs.iter().enumerate() {
        let st = &c.steps[i];
        let before = closed(&worlds[i].tree);
        let argv = &worlds[i].argv;
        let untouched = |r: &Run| r.tree.iter().find(|(p, n)| before.get(*p) != Some(n)).map(|x| x.0.clone()).or_else(|| before.keys().find(|p| !r.tree.contains_key(*p)).cloned());
        if i > 0 { mt.nontrivial += 1; }
        if r.hung() { bad(format!("run {} does not end: {}", i, r.describe())); continue; }
        if let Some(what) = st.note.strip_prefix("bad ") {
            let text = String::from_utf8_lossy(&r.stderr).into_owned();
            mt.probe("bad command lines");
            if r.exited.unwrap_or(0) == 0 { bad(format!("run {}: a command line with a bad {} ends with {}", i, what, r.describe())); }
            else if runs[0].exited == Some(0) && !text.contains(what) { bad(format!("run {}: the message about a bad {} does not name it: {}", i, what, r.describe())); }
            if let Some(p) = untouched(r) { bad(format!("run {}: a command line with a bad {} changed {}", i, what, p)); }
            continue;
        }
        if st.note == "help" {
            mt.probe("help");
            // a command line that names what is not there may also be refused
            let alone = argv.len() == 1;
            let text = String::from_utf8_lossy(&r.stdout).into_owned();
            if r.ok() { if !["USAGE", "-o FILE", "-L DIRECTORY", "-l LIBRARY", "-dynamic-linker", "--hash-style", "--as-needed"].iter().all(|w| text.contains(w)) { bad(format!("run {}: the help text is not printed", i)); } }
            else if alone || base.ok() { bad(format!("run {}: asking for help ends with {}", i, r.describe())); }
            if let Some(p) = untouched(r) { bad(format!("run {}: asking for help changed {}", i, p)); }
            continue;
        }
        let mi = Model::new(&worlds[i]);
        if i > 0 {
            if (r.exited, r.signal) != (base.exited, base.signal) { bad(format!("run {}: {} ends with {}; {} ended with {}", i, argv.join(" "), r.describe(), c.world.argv.join(" "), base.describe())); continue; }
            if r.ok() && r.tree.get(&mi.output) != bout { bad(format!("run {}: {} leaves {} at {}; {} left {}", i, argv.join(" "), show(r.tree.get(&mi.output)), mi.output, c.world.argv.join(" "), show(bout))); continue; }
            mt.probe(if r.ok() { "same image" } else { "same failure" });
        }
        if !r.ok() { continue; }
        // the options of this line, read off the image
        let img = match r.tree.get(&mi.output) { Some(Node::File { data, .. }) => match Image::parse(data) { Ok(x) => x, Err(e) => { bad(format!("run {}: {}", i, e)); continue; } }, _ => { bad(format!("run {}: no file at {}", i, mi.output)); continue; } };
        let secs: Vec<u32> = img.o.secs.iter().map(|s| s.typ).collect();
        for (bit, t, n) in [(1u8, 5u32, "sysv"), (2, 0x6ffffff6, "gnu")] {
            if secs.contains(&t) != (mi.hash_style & bit != 0) { bad(format!("run {}: {} a {} hash table", i, if secs.contains(&t) { "there is" } else { "there is not" }, n)); }
        }
        let interp = img.ph.iter().find(|p| p.typ == PT_INTERP).and_then(|p| img.raw.get(p.off as usize..(p.off + p.filesz) as usize).map(|b| b.to_vec()));
        let mut want = mi.interp.clone().into_bytes();
        want.push(0);
        if interp.as_ref() != Some(&want) { bad(format!("run {}: the interpreter is {:?} instead of {:?}", i, interp.map(|b| String::from_utf8_lossy(&b).into_owned()), mi.interp)); }
        if argv.iter().any(|a| a == "--build-id") && !secs.contains(&7) { bad("--build-id: the image has no identifier".into()); }
        if argv.iter().any(|a| a == "--eh-frame-hdr") && img.sec(".eh_frame").is_some() && !img.ph.iter().any(|p| p.typ == 0x6474e550) { bad("--eh-frame-hdr: the image has no such header".into()); }
    }
}
