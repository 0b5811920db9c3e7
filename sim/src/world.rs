//! The simulated world: files, command line, schedule seeds, fault plan; and the fork server that
//! executes the real dld binary in it.
use crate::json::{hex, obj, unhex, J};
use crate::rng::{hash_bytes, mix};
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::process::{Child, Command, Stdio};
use std::sync::Arc;

pub const PATHMAX: usize = 200;
pub const MAXENT: usize = 384;
pub const MAXINO: usize = 512;
pub const MAXOPS: usize = 40000;
pub const MAXFAULT: usize = 128;
pub const OUTMAX: usize = 1 << 18;
pub const BLOBMAX: usize = 1 << 16;
pub const MAXSWITCH: usize = 256;
pub const ARENASZ: usize = 128 << 20;
const MAGIC: u64 = 0x646c6473696d3037;

pub const KINDS: [&str; 24] = [
    "?", "open", "read", "write", "stat", "realpath", "readlink", "chmod", "close", "unlink", "rename", "truncate", "sync",
    "mkdir", "link", "seek", "stdout", "stderr", "access", "dir", "chdir", "mmap", "random", "other",
];
pub const K_OPEN: u32 = 1;
pub const K_READ: u32 = 2;
pub const K_WRITE: u32 = 3;
pub const K_STAT: u32 = 4;
pub const K_REALPATH: u32 = 5;
pub const K_CHMOD: u32 = 7;
pub const K_CLOSE: u32 = 8;
pub const K_RENAME: u32 = 10;
pub const K_TRUNC: u32 = 11;
pub const K_STDOUT: u32 = 16;
pub const K_STDERR: u32 = 17;

pub const F_ERR: u32 = 1;
pub const F_SHORT: u32 = 2;
pub const F_CRASH_BEFORE: u32 = 3;
pub const F_CRASH_AFTER: u32 = 4;
pub const F_CRASH_MID: u32 = 5;
pub const F_ZERO: u32 = 6;
pub const F_VANISH: u32 = 7;
/// At that call another program renames a prepared file over an input.
pub const F_REPLACE: u32 = 8;
pub const FKINDS: [&str; 9] = ["?", "error", "short", "crash-before", "crash-after", "crash-mid", "zero-write", "vanish", "replace"];

pub const ENDS: [&str; 7] = ["exit", "crash", "self-deadlock", "op-limit", "alloc-limit", "blocked-forever", "harness"];

#[repr(C)]
struct Ent { path: [u8; PATHMAX], ino: i32, live: i32 }
#[repr(C)]
struct Ino { kind: u32, mode: u32, size: u64, cap: u64, off: u64 }
#[repr(C)]
#[derive(Clone, Copy, Debug)]
pub struct Op { pub kind: u32, pub ino: i32, pub arg: i64, pub ret: i64, pub err: u32, pub fault: u32 }
#[repr(C)]
struct FaultRec { op: u64, kind: u32, err: u32, arg: i64, fired: u32, pad: u32 }
#[repr(C)]
struct Shm {
    magic: u64,
    hash_seed: u64, heap_seed: u64, clock_start: u64, io_seed: u64,
    pid: u64,
    short_permille: u64, eintr_permille: u64,
    quota: i64,
    alloc_fail_at: i64,
    op_limit: u64, alloc_limit: u64, cpu_ms: u64,
    nfault: u64,
    argc: u64, envc: u64, bloblen: u64,
    nent: u64, nino: u64, arena_used: u64,
    cwd: [u8; PATHMAX],
    end_reason: u64, nops: u64, nallocs: u64, nthreads: u64, quota_hits: u64, short_fired: u64, eintr_fired: u64, alloc_failed: u64,
    outlen: u64, errlen: u64, clock_reads: u64, random_reads: u64, sleeps: u64,
    end_arg: u64,
    sim_ns: u64,
    nproc: u64, gstep: u64, nswitch: u64,
    turn: u32, ended: [u32; 2], pad: u32,
    switch_at: [u64; MAXSWITCH],
    faults: [FaultRec; MAXFAULT],
    ents: [Ent; MAXENT],
    inos: [Ino; MAXINO],
    ops: [Op; MAXOPS],
    blob: [u8; BLOBMAX],
    out: [u8; OUTMAX],
    err: [u8; OUTMAX],
    arena: [u8; ARENASZ],
}

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    File { mode: u32, data: Arc<Vec<u8>> },
    Dir,
    Link(String),
}

/// Absolute path -> node. The root and parents are added automatically.
pub type Tree = BTreeMap<String, Node>;

#[derive(Clone, Debug, PartialEq)]
pub struct World {
    pub tree: Tree,
    pub argv: Vec<String>,
    pub env: Vec<(String, String)>,
    pub cwd: String,
    /// Pairs of names that are one file (hard links), as long as the tree has the same there.
    pub hard: Vec<(String, String)>,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Sched {
    pub hash_seed: u64,
    pub heap_seed: u64,
    pub clock: u64,
    pub pid: u64,
    pub io_seed: u64,
    pub short: u64,
    pub eintr: u64,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Fault { pub op: u64, pub kind: u32, pub err: u32, pub arg: i64 }

#[derive(Clone, Debug, PartialEq)]
pub struct Faults {
    pub list: Vec<Fault>,
    pub quota: i64,
    pub alloc_fail: i64,
    /// What F_REPLACE puts in place of a file.
    pub alts: Vec<(String, Arc<Vec<u8>>)>,
}
/// A second link running at the same time on the same disk, and when the two take turns.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Other {
    pub argv: Vec<String>,
    pub sched: Sched,
    pub faults: Faults,
    /// The link that begins: 0 or 1.
    pub first: u64,
    /// The counts of calls (of both) at which the other one goes on.
    pub switches: Vec<u64>,
}
impl Default for Faults {
    fn default() -> Self { Faults { list: vec![], quota: -1, alloc_fail: -1, alts: vec![] } }
}
impl Faults {
    pub fn none(&self) -> bool { self.list.is_empty() && self.quota < 0 && self.alloc_fail < 0 }
}

#[derive(Clone, Debug)]
pub struct Run {
    pub exited: Option<i32>,
    pub signal: Option<i32>,
    pub end: u64,
    pub end_arg: u64,
    pub tree: Tree,
    pub journal: Vec<Op>,
    pub op_paths: BTreeMap<i32, String>,
    pub fired: Vec<bool>,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub nops: u64,
    pub nallocs: u64,
    pub quota_hits: u64,
    pub short_fired: u64,
    pub eintr_fired: u64,
    pub alloc_failed: u64,
    pub clock_reads: u64,
    pub random_reads: u64,
    pub sim_ns: u64,
}

impl Run {
    pub fn ok(&self) -> bool { self.end == 0 && self.exited == Some(0) }
    pub fn hung(&self) -> bool {
        (self.end >= 2 && self.end <= 5) || matches!(self.signal, Some(27) | Some(14))
    }
    pub fn crashed(&self) -> bool { self.end == 1 }
    pub fn describe(&self) -> String {
        let mut s = if self.end != 0 {
            format!("ended by {} at call {}", ENDS[self.end as usize], self.end_arg)
        } else if let Some(c) = self.exited {
            format!("exit status {}", c)
        } else {
            format!("killed by signal {}", self.signal.unwrap_or(0))
        };
        let e = String::from_utf8_lossy(&self.stderr);
        let e: String = e.lines().last().unwrap_or("").chars().take(200).collect();
        if let Some(l) = String::from_utf8_lossy(&self.stderr).lines().find(|l| l.contains("panicked")) {
            s += &format!(", {}", l.chars().take(160).collect::<String>());
        }
        if !e.is_empty() { s += &format!(", stderr: {}", e); }
        s
    }
    /// Digest of everything observable, for determinism checks.
    pub fn digest(&self) -> u64 {
        let mut h = mix(self.end ^ (self.exited.unwrap_or(-1) as u64) << 8 ^ (self.signal.unwrap_or(-1) as u64) << 20);
        for o in &self.journal {
            h = mix(h ^ (o.kind as u64) << 32 ^ o.ino as u64).wrapping_add(mix(o.arg as u64 ^ (o.ret as u64) << 17 ^ (o.err as u64) << 48));
        }
        for (p, n) in &self.tree {
            h = mix(h ^ hash_bytes(p.as_bytes()));
            if let Node::File { mode, data } = n { h = mix(h ^ hash_bytes(data) ^ (*mode as u64) << 40); }
        }
        h = mix(h ^ hash_bytes(&self.stdout));
        mix(h ^ hash_bytes(&self.stderr)).wrapping_add(self.nallocs)
    }
    pub fn schedule_shape(&self) -> u64 {
        let mut h = 7u64;
        for o in &self.journal { h = mix(h ^ (o.kind as u64) << 32 ^ (o.ino as u64) << 8 ^ o.fault as u64 ^ (o.err as u64) << 48); }
        h
    }
}

pub struct Server {
    shm: *mut Shm,
    child: Child,
    pub restarts: u64,
    dld: String,
    shim: String,
    shmpath: String,
}
unsafe impl Send for Server {}

extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(a: *mut u8, n: usize) -> i32;
}

fn spawn(dld: &str, shim: &str, shmpath: &str) -> Result<Child, String> {
    Command::new(dld)
        .env_clear()
        .env("LD_PRELOAD", shim)
        .env("DLDSIM_SHM", shmpath)
        .current_dir("/")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::inherit())
        .spawn()
        .map_err(|e| format!("cannot start {}: {}", dld, e))
}

impl Server {
    pub fn new(dld: &str, shim: &str, id: usize) -> Result<Server, String> {
        use std::os::fd::AsRawFd;
        let dir = if std::fs::metadata("/dev/shm").map(|m| m.is_dir()).unwrap_or(false) { "/dev/shm" } else { "/tmp" };
        static SERIAL: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let shmpath = format!("{}/dldsim-{}-{}-{}", dir, std::process::id(), id, SERIAL.fetch_add(1, std::sync::atomic::Ordering::SeqCst));
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(&shmpath).map_err(|e| e.to_string())?;
        f.set_len(2 * std::mem::size_of::<Shm>() as u64).map_err(|e| e.to_string())?;
        let p = unsafe { mmap(std::ptr::null_mut(), 2 * std::mem::size_of::<Shm>(), 3, 1, f.as_raw_fd(), 0) };
        if p as isize == -1 { return Err("mmap failed".into()); }
        let shm = p as *mut Shm;
        unsafe { (*shm).magic = MAGIC; }
        let child = spawn(dld, shim, &shmpath)?;
        Ok(Server { shm, child, restarts: 0, dld: dld.into(), shim: shim.into(), shmpath })
    }

    pub fn run(&mut self, w: &World, s: &Sched, f: &Faults) -> Result<Run, String> { self.retry(w, s, f, None).map(|r| r.0) }

    pub fn run_pair(&mut self, w: &World, s: &Sched, f: &Faults, o: &Other) -> Result<(Run, Run), String> {
        self.retry(w, s, f, Some(o)).map(|r| (r.0, r.1.unwrap()))
    }

    fn retry(&mut self, w: &World, s: &Sched, f: &Faults, o: Option<&Other>) -> Result<(Run, Option<Run>), String> {
        for attempt in 0..2 {
            match self.run_once(w, s, f, o) {
                Ok(r) => return Ok(r),
                Err(e) if e.ends_with("for the simulator") => return Err(e),
                Err(e) if attempt == 0 => {
                    let _ = self.child.kill();
                    let _ = self.child.wait();
                    self.child = spawn(&self.dld, &self.shim, &self.shmpath)?;
                    self.restarts += 1;
                    eprintln!("dldsim: fork server restarted: {}", e);
                }
                Err(e) => return Err(e),
            }
        }
        unreachable!()
    }

    fn load(m: &mut Shm, argv: &[String], env: &[(String, String)], cwd: &str, s: &Sched, f: &Faults, repl: &[i64]) -> Result<(), String> {
        m.hash_seed = s.hash_seed;
        m.heap_seed = s.heap_seed;
        m.clock_start = s.clock;
        m.io_seed = s.io_seed;
        m.pid = s.pid.max(2);
        m.short_permille = s.short;
        m.eintr_permille = s.eintr;
        m.alloc_fail_at = f.alloc_fail;
        m.op_limit = 30000;
        m.alloc_limit = 3_000_000;
        m.cpu_ms = 4000;
        m.nfault = f.list.len().min(MAXFAULT) as u64;
        for (i, x) in f.list.iter().take(MAXFAULT).enumerate() {
            let arg = if x.kind == F_REPLACE { repl.get(x.arg as usize).copied().unwrap_or(i64::MAX) } else { x.arg };
            m.faults[i] = FaultRec { op: x.op, kind: x.kind, err: x.err, arg, fired: 0, pad: 0 };
        }
        for v in [&mut m.end_reason, &mut m.nops, &mut m.nallocs, &mut m.nthreads, &mut m.quota_hits, &mut m.short_fired,
                  &mut m.eintr_fired, &mut m.alloc_failed, &mut m.outlen, &mut m.errlen, &mut m.clock_reads, &mut m.random_reads,
                  &mut m.sleeps, &mut m.end_arg, &mut m.sim_ns] { *v = 0; }
        let mut b: Vec<u8> = vec![];
        m.argc = argv.len() as u64 + 1;
        b.extend(b"dld\0");
        for a in argv { b.extend(a.as_bytes()); b.push(0); }
        m.envc = env.len() as u64;
        for (k, v) in env { b.extend(format!("{}={}", k, v).as_bytes()); b.push(0); }
        if b.len() > BLOBMAX || m.argc > 1000 || m.envc > 60 { return Err("arguments too long for the simulator".into()); }
        m.blob[..b.len()].copy_from_slice(&b);
        m.bloblen = b.len() as u64;
        setstr(&mut m.cwd, cwd);
        Ok(())
    }

    fn run_once(&mut self, w: &World, s: &Sched, f: &Faults, other: Option<&Other>) -> Result<(Run, Option<Run>), String> {
        let m = unsafe { &mut *self.shm };
        // files
        m.nent = 0; m.nino = 0; m.arena_used = 0;
        m.quota = f.quota;
        let tree = closed(&w.tree);
        if tree.len() > MAXENT - 40 { return Err("too many files for the simulator".into()); }
        let put = |m: &mut Shm, kind: u32, mode: u32, data: &[u8]| -> Result<usize, String> {
            let i = m.nino as usize;
            let cap = (data.len() + 63) & !63;
            if m.arena_used as usize + cap > ARENASZ / 4 { return Err("files too large for the simulator".into()); }
            m.inos[i] = Ino { kind, mode, size: data.len() as u64, cap: cap as u64, off: m.arena_used };
            let o = m.arena_used as usize;
            m.arena[o..o + data.len()].copy_from_slice(data);
            m.arena_used += cap as u64;
            m.nino += 1;
            Ok(i)
        };
        for (p, n) in &tree {
            let i = match n {
                Node::File { mode, data } => put(m, 1, *mode, &data[..])?,
                Node::Dir => put(m, 2, 0o755, &[])?,
                Node::Link(t) => put(m, 3, 0o777, t.as_bytes())?,
            };
            let e = &mut m.ents[m.nent as usize];
            if p.len() >= PATHMAX { return Err("path too long for the simulator".into()); }
            setstr(&mut e.path, p);
            e.ino = i as i32;
            e.live = 1;
            m.nent += 1;
        }
        for (a, b) in &w.hard {
            let at = |p: &String| tree.keys().position(|x| x == p);
            if let (Some(x), Some(y), Some(Node::File { .. })) = (at(a), at(b), tree.get(a)) {
                if tree.get(a) == tree.get(b) { m.ents[x].ino = m.ents[y].ino; }
            }
        }
        let mut repl = vec![];
        for (p, d) in f.alts.iter() {
            let i = put(m, 1, 0o644, &d[..])?;
            repl.push(tree.keys().position(|x| x == p).map(|e| e as i64 | (i as i64) << 16).unwrap_or(i64::MAX));
        }
        Self::load(m, &w.argv, &w.env, &w.cwd, s, f, &repl)?;
        // whoever logs every section of a huge input makes many calls
        let bytes: usize = w.tree.values().map(|n| if let Node::File { data, .. } = n { data.len() } else { 0 }).sum();
        m.op_limit += bytes as u64 / 16;
        m.nproc = 1;
        m.gstep = 0; m.nswitch = 0; m.turn = 0; m.ended = [0; 2];
        if let Some(o) = other {
            m.nproc = 2;
            m.turn = (o.first & 1) as u32;
            m.nswitch = o.switches.len().min(MAXSWITCH) as u64;
            for (i, x) in o.switches.iter().take(MAXSWITCH).enumerate() { m.switch_at[i] = *x; }
            let b = unsafe { &mut *self.shm.add(1) };
            Self::load(b, &o.argv, &w.env, &w.cwd, &o.sched, &o.faults, &[])?;
        }
        // go
        self.child.stdin.as_mut().unwrap().write_all(b"g").and_then(|_| self.child.stdin.as_mut().unwrap().flush()).map_err(|e| format!("fork server gone: {}", e))?;
        let mut st = [0u8; 8];
        self.child.stdout.as_mut().unwrap().read_exact(&mut st).map_err(|e| format!("fork server gone: {}", e))?;
        let st = [i32::from_le_bytes(st[..4].try_into().unwrap()), i32::from_le_bytes(st[4..].try_into().unwrap())];
        if st[0] == -1 || other.is_some() && st[1] == -1 { return Err("fork failed in the fork server".into()); }
        let m = unsafe { &*self.shm };
        let m2 = unsafe { &*self.shm.add(1) };
        for x in [Some(m), other.map(|_| m2)].into_iter().flatten() { if x.end_reason == 6 { return Err(format!("simulator limit {} reached", x.end_arg)); } }
        let mut after = Tree::new();
        for e in &m.ents[..m.nent as usize] {
            if e.live == 0 { continue; }
            let ino = &m.inos[e.ino as usize];
            let path = getstr(&e.path);
            let c = &m.arena[ino.off as usize..(ino.off + ino.size) as usize];
            let n = match ino.kind {
                1 => {
                    // share the original allocation when unchanged
                    let data = match tree.get(&path) {
                        Some(Node::File { data, .. }) if data[..] == *c => data.clone(),
                        _ => Arc::new(c.to_vec()),
                    };
                    Node::File { mode: ino.mode, data }
                }
                2 => Node::Dir,
                _ => Node::Link(String::from_utf8_lossy(c).into_owned()),
            };
            after.insert(path, n);
        }
        let mut op_paths = BTreeMap::new();
        for e in &m.ents[..m.nent as usize] { op_paths.insert(e.ino, getstr(&e.path)); }
        let collect = |m: &Shm, st: i32| Run {
            exited: if st & 0x7f == 0 { Some((st >> 8) & 0xff) } else { None },
            signal: if st & 0x7f != 0 { Some(st & 0x7f) } else { None },
            end: m.end_reason,
            end_arg: m.end_arg,
            tree: after.clone(),
            journal: m.ops[..(m.nops as usize).min(MAXOPS)].to_vec(),
            op_paths: op_paths.clone(),
            fired: m.faults[..m.nfault as usize].iter().map(|f| f.fired != 0).collect(),
            stdout: m.out[..m.outlen as usize].to_vec(),
            stderr: m.err[..m.errlen as usize].to_vec(),
            nops: m.nops,
            nallocs: m.nallocs,
            quota_hits: m.quota_hits,
            short_fired: m.short_fired,
            eintr_fired: m.eintr_fired,
            alloc_failed: m.alloc_failed,
            clock_reads: m.clock_reads,
            random_reads: m.random_reads,
            sim_ns: m.sim_ns,
        };
        Ok((collect(m, st[0]), other.map(|_| collect(m2, st[1]))))
    }
}

impl Drop for Server {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.shmpath);
        let _ = self.child.kill();
        let _ = self.child.wait();
        unsafe { munmap(self.shm as *mut u8, 2 * std::mem::size_of::<Shm>()); }
    }
}

/// The entry index (in the simulator's table) of a path: used by vanish faults.
pub fn entry_index(t: &Tree, path: &str) -> Option<i64> {
    closed(t).keys().position(|p| p == path).map(|i| i as i64)
}

/// Adds the root and missing parent directories.
pub fn closed(t: &Tree) -> Tree {
    let mut r = t.clone();
    r.entry("/".into()).or_insert(Node::Dir);
    for p in t.keys() {
        let mut q = p.as_str();
        while let Some(i) = q.rfind('/') {
            if i == 0 { break; }
            q = &q[..i];
            r.entry(q.to_string()).or_insert(Node::Dir);
        }
    }
    r
}

fn setstr(d: &mut [u8], s: &str) {
    d[..s.len()].copy_from_slice(s.as_bytes());
    d[s.len()] = 0;
}
fn getstr(d: &[u8]) -> String {
    let n = d.iter().position(|c| *c == 0).unwrap();
    String::from_utf8_lossy(&d[..n]).into_owned()
}

pub fn file(data: Vec<u8>) -> Node { Node::File { mode: 0o644, data: Arc::new(data) } }

/* ---------- serialisation ---------- */
pub fn tree_json(t: &Tree) -> J {
    J::Arr(t.iter().map(|(p, n)| match n {
        Node::File { mode, data } => {
            let text = std::str::from_utf8(data).ok().filter(|s| s.chars().all(|c| c == '\n' || (c >= ' ' && c <= '~')));
            match text {
                Some(s) => obj(vec![("path", p.as_str().into()), ("mode", (*mode).into()), ("text", s.into())]),
                None => obj(vec![("path", p.as_str().into()), ("mode", (*mode).into()), ("hex", hex(data).into())]),
            }
        }
        Node::Dir => obj(vec![("path", p.as_str().into()), ("dir", true.into())]),
        Node::Link(l) => obj(vec![("path", p.as_str().into()), ("link", l.as_str().into())]),
    }).collect())
}
pub fn tree_from(j: &J) -> Tree {
    j.arr().iter().map(|e| {
        let p = e.get("path").str().to_string();
        let n = if !e.get("dir").is_null() { Node::Dir }
            else if !e.get("link").is_null() { Node::Link(e.get("link").str().into()) }
            else {
                let d = if e.get("text").is_null() { unhex(e.get("hex").str()) } else { e.get("text").str().as_bytes().to_vec() };
                Node::File { mode: e.get("mode").u() as u32, data: Arc::new(d) }
            };
        (p, n)
    }).collect()
}
impl World {
    pub fn json(&self) -> J {
        obj(vec![
            ("argv", self.argv.clone().into()),
            ("env", J::Arr(self.env.iter().map(|(k, v)| J::Arr(vec![k.as_str().into(), v.as_str().into()])).collect())),
            ("cwd", self.cwd.as_str().into()),
            ("files", tree_json(&self.tree)),
            ("hard", J::Arr(self.hard.iter().map(|(a, b)| J::Arr(vec![a.as_str().into(), b.as_str().into()])).collect())),
        ])
    }
    pub fn from(j: &J) -> World {
        World {
            tree: tree_from(j.get("files")),
            argv: j.get("argv").arr().iter().map(|a| a.str().to_string()).collect(),
            env: j.get("env").arr().iter().map(|a| (a.arr()[0].str().to_string(), a.arr()[1].str().to_string())).collect(),
            cwd: j.get("cwd").str().into(),
            hard: if j.get("hard").is_null() { vec![] } else { j.get("hard").arr().iter().map(|a| (a.arr()[0].str().to_string(), a.arr()[1].str().to_string())).collect() },
        }
    }
}
impl Sched {
    pub fn json(&self) -> J {
        obj(vec![("hash_seed", self.hash_seed.into()), ("heap_seed", self.heap_seed.into()), ("clock", self.clock.into()), ("pid", self.pid.into()),
                 ("io_seed", self.io_seed.into()), ("short_permille", self.short.into()), ("eintr_permille", self.eintr.into())])
    }
    pub fn from(j: &J) -> Sched {
        Sched { hash_seed: j.get("hash_seed").u(), heap_seed: j.get("heap_seed").u(), clock: j.get("clock").u(), pid: j.get("pid").u(),
                io_seed: j.get("io_seed").u(), short: j.get("short_permille").u(), eintr: j.get("eintr_permille").u() }
    }
}
impl Faults {
    pub fn json(&self) -> J {
        obj(vec![
            ("faults", J::Arr(self.list.iter().map(|f| obj(vec![("call", f.op.into()), ("kind", FKINDS[f.kind as usize].into()), ("errno", f.err.into()), ("arg", f.arg.into())])).collect())),
            ("disk_quota", self.quota.into()),
            ("fail_allocation", self.alloc_fail.into()),
            ("replacements", tree_json_list(&self.alts)),
        ])
    }
    pub fn from(j: &J) -> Faults {
        Faults {
            list: j.get("faults").arr().iter().map(|f| Fault {
                op: f.get("call").u(), kind: FKINDS.iter().position(|k| *k == f.get("kind").str()).unwrap_or(1) as u32,
                err: f.get("errno").u() as u32, arg: f.get("arg").i() }).collect(),
            quota: j.get("disk_quota").i(),
            alloc_fail: j.get("fail_allocation").i(),
            alts: if j.get("replacements").is_null() { vec![] } else { j.get("replacements").arr().iter().map(|e| (e.get("path").str().to_string(), Arc::new(unhex(e.get("hex").str())))).collect() },
        }
    }
}

fn tree_json_list(a: &[(String, Arc<Vec<u8>>)]) -> J {
    J::Arr(a.iter().map(|(p, d)| obj(vec![("path", p.as_str().into()), ("hex", hex(d).into())])).collect())
}
impl Other {
    pub fn json(&self) -> J {
        obj(vec![("argv", self.argv.clone().into()), ("schedule", self.sched.json()), ("plan", self.faults.json()), ("first", self.first.into()),
                 ("switches", J::Arr(self.switches.iter().map(|x| (*x).into()).collect()))])
    }
    pub fn from(j: &J) -> Other {
        Other { argv: j.get("argv").arr().iter().map(|a| a.str().to_string()).collect(), sched: Sched::from(j.get("schedule")), faults: Faults::from(j.get("plan")),
                first: j.get("first").u(), switches: j.get("switches").arr().iter().map(|x| x.u()).collect() }
    }
}
