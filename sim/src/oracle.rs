//! Judges one finished link against the reference model: every check is labelled with the
//! properties it decides.
use crate::elf::*;
use crate::image::*;
use crate::model::*;
use crate::rng::Rng;
use crate::world::World;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;

#[derive(Clone, Debug)]
pub struct Viol { pub props: Vec<&'static str>, pub msg: String }

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub sections: u64, pub relocs: u64, pub imports_called: u64, pub copies: u64, pub aliases: u64, pub lookups: u64, pub symbols: u64, pub members: u64, pub discarded: u64, pub lazy: u64, pub ctors: u64,
    pub reltypes: BTreeMap<String, u64>,
}
impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.sections += o.sections; self.relocs += o.relocs; self.imports_called += o.imports_called; self.copies += o.copies; self.aliases += o.aliases; self.lookups += o.lookups;
        self.symbols += o.symbols; self.members += o.members; self.discarded += o.discarded; self.lazy += o.lazy; self.ctors += o.ctors;
        for (k, v) in &o.reltypes { *self.reltypes.entry(k.clone()).or_insert(0) += v; }
    }
}

pub const SKIPPED: [u32; 8] = [SHT_GROUP, SHT_SYMTAB, SHT_DYNSYM, SHT_STRTAB, SHT_RELA, SHT_DYNAMIC, SHT_REL, 10];
/// Properties that speak about every successful link's image.
pub const IMAGE_PROPS: [&str; 15] = ["C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C24"];

#[derive(Clone, Debug, PartialEq)]
enum Target { Addr(u64), Fn(String, usize, usize), Data(String, usize, usize), Tls(String, usize, usize), Unknown }

struct Ck<'a> {
    m: &'a Model,
    img: &'a Image,
    v: Vec<Viol>,
    base: Vec<HashMap<usize, u64>>,
    copies: BTreeMap<String, u64>,
    /// The thread-local block: where its image is, and the address that the thread pointer stands for.
    tls: Option<(u64, u64)>,
    st: Stats,
}

/// Bytes of a section that relocations may change.
fn masked(o: &PObj, sec: usize) -> Vec<bool> {
    let s = &o.secs[sec];
    let mut m = vec![false; s.data.len()];
    for r in o.rels.iter().filter(|r| r.sec == sec) {
        let off = r.off as usize;
        let lo = match r.typ { R_GOTPCRELX => off.saturating_sub(2), R_REX_GOTPCRELX => off.saturating_sub(3), _ => off };
        for k in lo..(off + rsize(r.typ)).min(m.len()) { m[k] = true; }
    }
    m
}
/// The longest run of bytes no relocation touches.
pub fn marker(o: &PObj, sec: usize) -> Option<(usize, Vec<u8>)> {
    let m = masked(o, sec);
    let (mut best, mut st) = ((0, 0), 0);
    for i in 0..=m.len() {
        if i == m.len() || m[i] { if i - st > best.1 { best = (st, i - st); } st = i + 1; }
    }
    if best.1 < 12 { None } else { Some((best.0, o.secs[sec].data[best.0..best.0 + best.1].to_vec())) }
}
extern "C" { fn memmem(h: *const u8, hl: usize, n: *const u8, nl: usize) -> *const u8; }
pub fn find_all(h: &[u8], n: &[u8]) -> Vec<usize> {
    let mut v = vec![];
    if n.is_empty() { return v; }
    let mut at = 0;
    while at < h.len() {
        // SAFETY: both ranges are those of live slices
        let p = unsafe { memmem(h[at..].as_ptr(), h.len() - at, n.as_ptr(), n.len()) };
        if p.is_null() { break; }
        at = p as usize - h.as_ptr() as usize;
        v.push(at);
        at += 1;
    }
    v
}
/// Uninitialised thread-local data, which has no memory of its own.
fn tbss(s: &PSec) -> bool { s.flags & TLS != 0 && s.typ == SHT_NOBITS }
fn linked_sections(o: &PObj) -> Vec<usize> {
    o.secs.iter().skip(1).filter(|s| s.typ != 0 && !SKIPPED.contains(&s.typ) && s.size > 0).map(|s| s.idx).collect()
}

pub fn check_image(_w: &World, m: &Model, bytes: &[u8], seed: u64) -> (Vec<Viol>, Stats) {
    let img = match Image::parse(bytes) {
        Ok(i) => i,
        Err(e) => return (vec![Viol { props: vec!["C12", "C13", "C20"], msg: e }], Stats::default()),
    };
    let mut c = Ck { m, img: &img, v: vec![], base: vec![HashMap::new(); m.objs.len()], copies: BTreeMap::new(), tls: tls_block(&img), st: Stats::default() };
    let mut rng = Rng(seed ^ 0x0c0ffee);
    c.headers();
    let mem = match Mem::map(&img) {
        Ok(mem) => mem,
        Err(e) => { c.bad(&["C13"], format!("the kernel would not load the image: {}", e)); return (c.v, c.st); }
    };
    c.segments(&mem);
    c.placement(&mem);
    c.skipped();
    c.discarded();
    // the loader
    let avail: Vec<(Vec<String>, Arc<PObj>)> = m.libs.iter().map(|l| (vec![l.needed_name.clone()], l.o.clone())).collect();
    c.needed_raw(&mem);
    let seed2 = rng.u64();
    let mut eager = match Proc::start(&img, &avail, &mut Rng(seed2)) {
        Ok(p) => p,
        Err(e) => { c.bad(&["C15", "C16", "C18"], format!("the dynamic loader fails: {}", e)); return (c.v, c.st); }
    };
    let mut lazy = match Proc::start(&img, &avail, &mut Rng(seed2)) { Ok(p) => p, Err(_) => return (c.v, c.st) };
    if let Err(e) = eager.bind_now() { c.bad(&["C15"], format!("binding at start-up fails: {}", e)); }
    c.dynamic(&eager);
    c.copyrels(&mem, &mut eager);
    c.commons(&eager);
    c.entry(&eager);
    c.witness_check(&mem, &eager);
    c.relocs(&mut eager, &mut lazy, &mut rng);
    c.arrays(&eager);
    c.symtab();
    c.hashes(&mut eager, &mut rng);
    c.st.lookups += eager.lookups + lazy.lookups;
    c.st.lazy += lazy.lazy_resolved;
    (c.v, c.st)
}

/// Where the image of the thread-local block is, and the address its thread pointer corresponds to: the
/// block ends at the thread pointer, with the image's alignment kept (psABI, variant II).
fn tls_block(img: &Image) -> Option<(u64, u64)> {
    let p = img.ph.iter().find(|p| p.typ == PT_TLS)?;
    let al = p.align.max(1);
    let lead = (al - p.vaddr % al) % al;
    let size = (p.memsz.wrapping_sub(lead).wrapping_add(al - 1) / al * al).wrapping_add(lead);
    Some((p.vaddr, p.vaddr.wrapping_add(size)))
}

/// The same sections?  Their contents are unique otherwise.
fn same(a: &PObj, b: &PObj) -> bool { a.secs.len() == b.secs.len() && a.secs.iter().zip(&b.secs).all(|(x, y)| x.data == y.data) }

impl<'a> Ck<'a> {
    fn bad(&mut self, props: &[&'static str], msg: String) {
        if self.v.len() < 40 { self.v.push(Viol { props: props.to_vec(), msg }); }
    }
    fn who(&self, oi: usize) -> String {
        let l = &self.m.objs[oi];
        match &l.member { Some(m) => format!("{}({})", l.path, m), None => l.path.clone() }
    }

    fn headers(&mut self) {
        let b = &self.img.raw;
        let g = |o, n| match n { 1 => b[o] as u64, 2 => g16(b, o).unwrap(), 4 => g32(b, o).unwrap(), _ => g64(b, o).unwrap() };
        for (o, n, want, what) in [(4usize, 1, 2u64, "class"), (5, 1, 1, "byte order"), (6, 1, 1, "ident version"), (8, 8, 0, "ABI version and padding"), (16, 2, 2, "e_type"), (18, 2, 62, "e_machine"), (20, 4, 1, "e_version"),
                                   (52, 2, 64, "e_ehsize"), (54, 2, 56, "e_phentsize"), (58, 2, 64, "e_shentsize")] {
            if g(o, n) != want { self.bad(&["C13"], format!("ELF header: {} is {} instead of {}", what, g(o, n), want)); }
        }
        if b[7] != 0 && b[7] != 3 { self.bad(&["C13"], format!("ELF header: OS ABI {} is neither System V nor Linux", b[7])); }
        let n = self.img.o.secs.len();
        if self.img.shstrndx as usize >= n || self.img.o.secs[self.img.shstrndx as usize].typ != SHT_STRTAB { self.bad(&["C13", "C20"], "e_shstrndx is not a string table".into()); }
        let z = &self.img.o.secs[0];
        if z.typ != 0 || z.size != 0 || z.addr != 0 { self.bad(&["C13"], "section header 0 is not null".into()); }
        // file ranges
        let mut r: Vec<(u64, u64, String)> = vec![(0, 64, "ELF header".into()), (self.img.phoff, self.img.phoff + 56 * self.img.ph.len() as u64, "program headers".into())];
        let shoff = g64(b, 40).unwrap();
        r.push((shoff, shoff + 64 * n as u64, "section headers".into()));
        for s in self.img.o.secs.iter().skip(1) {
            if s.typ != SHT_NOBITS && s.size > 0 { r.push((s.off, s.off + s.size, format!("section {}", s.name))); }
        }
        r.sort();
        for w in r.windows(2) {
            if w[0].1 > w[1].0 { let msg = format!("in the file, {} [{:#x},{:#x}) overlaps {} [{:#x},{:#x})", w[0].2, w[0].0, w[0].1, w[1].2, w[1].0, w[1].1); self.bad(&["C12", "C13"], msg); }
        }
        // addresses
        let mut a: Vec<(u64, u64, String)> = vec![];
        for s in self.img.o.secs.iter().skip(1).filter(|s| s.flags & A != 0 && s.size > 0 && !tbss(s)) {
            a.push((s.addr, s.addr + s.size, s.name.clone()));
            if s.align > 1 && s.addr % s.align != 0 {
                self.v.push(Viol { props: vec!["C12", "C13"], msg: format!("section {} at {:#x} is not aligned to {:#x}", s.name, s.addr, s.align) });
            }
        }
        a.sort();
        for w in a.windows(2) {
            if w[0].1 > w[1].0 { let msg = format!("in memory, section {} [{:#x},{:#x}) overlaps {} [{:#x},{:#x})", w[0].2, w[0].0, w[0].1, w[1].2, w[1].0, w[1].1); self.bad(&["C12", "C13"], msg); }
        }
        // names of sections are unique as dld merges by name
        let mut names = BTreeSet::new();
        for s in self.img.o.secs.iter().skip(1) { if !names.insert(&s.name) { let m = format!("two output sections are named {}", s.name); self.v.push(Viol { props: vec!["C12", "C13"], msg: m }); } }
    }

    fn segments(&mut self, mem: &Mem) {
        let img = self.img;
        let loads: Vec<&Ph> = img.ph.iter().filter(|p| p.typ == PT_LOAD).collect();
        for w in loads.windows(2) { if w[0].vaddr > w[1].vaddr { self.bad(&["C13"], "PT_LOAD entries are not in ascending address order".into()); } }
        for p in &loads { if p.align & p.align.wrapping_sub(1) != 0 || p.align > 1 && p.vaddr.wrapping_sub(p.off) % p.align != 0 { self.bad(&["C13"], format!("PT_LOAD: offset {:#x} and address {:#x} do not agree modulo its alignment {:#x}", p.off, p.vaddr, p.align)); } }
        for s in img.o.secs.iter().skip(1).filter(|s| s.flags & A != 0 && s.size > 0 && !tbss(s)) {
            let inside: Vec<&&Ph> = loads.iter().filter(|p| s.addr < p.vaddr + p.memsz && s.addr + s.size > p.vaddr).collect();
            if inside.len() != 1 || s.addr < inside[0].vaddr || s.addr + s.size > inside[0].vaddr + inside[0].memsz {
                self.bad(&["C12", "C13"], format!("section {} [{:#x},{:#x}) is not inside exactly one PT_LOAD segment", s.name, s.addr, s.addr + s.size));
                continue;
            }
            let want = 4 | if s.flags & W != 0 { 2 } else { 0 } | if s.flags & X != 0 { 1 } else { 0 };
            if inside[0].flags != want { self.bad(&["C13"], format!("section {} with flags {:#x} lies in a segment with permissions {:#x}", s.name, s.flags, inside[0].flags)); }
            let got = mem.read(s.addr, s.size as usize);
            let ok = if s.typ == SHT_NOBITS { got.as_ref().map(|g| g.iter().all(|b| *b == 0)).unwrap_or(false) } else { got.as_ref() == Some(&s.data) };
            if !ok {
                let msg = if s.typ == SHT_NOBITS { format!("memory of the uninitialised section {} is not zero after loading", s.name) }
                    else { format!("memory at {:#x} does not hold the file bytes of section {} (offset {:#x})", s.addr, s.name, s.off) };
                self.bad(if s.typ == SHT_NOBITS { &["C12", "C13"] } else { &["C13"] }, msg);
            }
        }
        // the thread-local block
        let tls: Vec<&PSec> = img.o.secs.iter().skip(1).filter(|s| s.flags & (A | TLS) == A | TLS && s.size > 0).collect();
        let blocks: Vec<&Ph> = img.ph.iter().filter(|p| p.typ == PT_TLS).collect();
        if blocks.len() > 1 || blocks.is_empty() && !tls.is_empty() { self.bad(&["C13", "C24"], format!("{} PT_TLS segments for {} thread-local sections", blocks.len(), tls.len())); }
        if let Some(p) = blocks.first() {
            if p.filesz > p.memsz || p.align & p.align.wrapping_sub(1) != 0 { self.bad(&["C13", "C24"], format!("PT_TLS: file size {:#x}, memory size {:#x}, alignment {:#x}", p.filesz, p.memsz, p.align)); }
            if p.filesz > 0 && mem.read(p.vaddr, p.filesz as usize).map(|v| img.raw.get(p.off as usize..(p.off + p.filesz) as usize) != Some(&v[..])).unwrap_or(true) { self.bad(&["C13", "C24"], format!("PT_TLS: the image at {:#x} is not the file's {:#x} bytes at offset {:#x}", p.vaddr, p.filesz, p.off)); }
            for s in &tls {
                if s.addr < p.vaddr || s.addr + s.size > p.vaddr + p.memsz { self.bad(&["C13", "C24"], format!("PT_TLS [{:#x},{:#x}) does not cover {} [{:#x},{:#x})", p.vaddr, p.vaddr + p.memsz, s.name, s.addr, s.addr + s.size)); continue; }
                if p.align < s.align { self.bad(&["C13", "C24"], format!("PT_TLS is aligned to {:#x}, section {} to {:#x}", p.align, s.name, s.align)); }
                if s.typ != SHT_NOBITS && s.addr + s.size > p.vaddr + p.filesz { self.bad(&["C13", "C24"], format!("PT_TLS: the initial values end at {:#x}, section {} at {:#x}", p.vaddr + p.filesz, s.name, s.addr + s.size)); }
                if s.typ == SHT_NOBITS && (s.addr..s.addr + s.size).any(|a| a < p.vaddr + p.filesz && mem.byte(a) != Some(0)) { self.bad(&["C12", "C24"], format!("thread-local section {} does not start out as zeroes", s.name)); }
            }
            if let Some(end) = tls.iter().map(|s| s.addr + s.size).max() {
                let top = (end + p.align.max(1) - 1) / p.align.max(1) * p.align.max(1);
                if p.vaddr + p.memsz > top { self.bad(&["C13", "C24"], format!("PT_TLS [{:#x},{:#x}) goes on behind the last thread-local section, which ends at {:#x}", p.vaddr, p.vaddr + p.memsz, end)); }
            }
            for (i, s) in tls.iter().enumerate() { for z in &tls[i + 1..] { if s.addr < z.addr + z.size && z.addr < s.addr + s.size { self.bad(&["C12", "C24"], format!("thread-local sections {} and {} overlap", s.name, z.name)); } } }
        }
        // the three descriptive segments
        let one = |c: &mut Self, t: u64, what: &str| -> Option<Ph> {
            let v: Vec<&Ph> = img.ph.iter().filter(|p| p.typ == t).collect();
            if v.len() != 1 { c.bad(&["C13"], format!("{} {} segments", v.len(), what)); return None; }
            let p = *v[0];
            let host = loads.iter().find(|l| p.vaddr >= l.vaddr && p.vaddr + p.memsz <= l.vaddr + l.memsz);
            match host {
                None => c.bad(&["C13"], format!("{} [{:#x},{:#x}) is not covered by a PT_LOAD segment", what, p.vaddr, p.vaddr + p.memsz)),
                Some(l) => if p.off.wrapping_sub(l.off) != p.vaddr.wrapping_sub(l.vaddr) { c.bad(&["C13"], format!("{}: offset {:#x} and address {:#x} disagree with the PT_LOAD segment covering it", what, p.off, p.vaddr)); }
            }
            if p.filesz != p.memsz { c.bad(&["C13"], format!("{}: file size {:#x} and memory size {:#x} differ", what, p.filesz, p.memsz)); }
            Some(p)
        };
        if let Some(p) = one(self, PT_PHDR, "PT_PHDR") {
            if p.off != img.phoff || p.memsz != 56 * img.ph.len() as u64 { self.bad(&["C13"], format!("PT_PHDR gives offset {:#x} size {:#x}, the table is at {:#x} size {:#x}", p.off, p.memsz, img.phoff, 56 * img.ph.len())); }
            if img.ph.iter().position(|p| p.typ == PT_PHDR) > img.ph.iter().position(|p| p.typ == PT_LOAD) { self.bad(&["C13"], "PT_PHDR follows a PT_LOAD entry".into()); }
        }
        if let Some(p) = one(self, PT_INTERP, "PT_INTERP") {
            let mut want = self.m.interp.as_bytes().to_vec();
            want.push(0);
            if mem.read(p.vaddr, p.memsz as usize).as_ref() != Some(&want) || img.raw.get(p.off as usize..(p.off + p.filesz) as usize) != Some(&want[..]) {
                self.bad(&["C13"], format!("PT_INTERP does not hold {:?}", self.m.interp));
            }
            if img.ph.iter().position(|p| p.typ == PT_INTERP) > img.ph.iter().position(|p| p.typ == PT_LOAD) { self.bad(&["C13"], "PT_INTERP follows a PT_LOAD entry".into()); }
        }
        if let Some(p) = one(self, PT_DYNAMIC, "PT_DYNAMIC") {
            match img.o.secs.iter().find(|s| s.typ == SHT_DYNAMIC) {
                Some(s) => if p.off != s.off || p.vaddr != s.addr || p.memsz != s.size { self.bad(&["C13", "C18"], format!("PT_DYNAMIC gives {:#x}+{:#x}, the section is {:#x}+{:#x}", p.vaddr, p.memsz, s.addr, s.size)); },
                None => self.bad(&["C13"], "no SHT_DYNAMIC section".into()),
            }
        }
    }

    fn placement(&mut self, mem: &Mem) {
        let m = self.m;
        // what all the sections of one name have together: flags, and whether any has contents (even none) in its file
        let mut kinds: HashMap<String, (u64, u64, bool)> = HashMap::new();
        for l in &m.objs { for s in l.o.secs.iter().skip(1).filter(|s| s.typ != 0 && !SKIPPED.contains(&s.typ)) {
            let e = kinds.entry(s.name.clone()).or_insert((0, 0, false));
            if s.size > 0 { e.0 |= s.flags; }
            e.1 |= s.flags;
            // zeroes that nobody may write have to be in the file
            e.2 |= s.typ != SHT_NOBITS || s.flags & W == 0;
        } }
        for (oi, l) in m.objs.iter().enumerate() {
            for si in linked_sections(&l.o) {
                let s = &l.o.secs[si];
                self.st.sections += 1;
                let out = match self.img.sec(&s.name) {
                    Some(o) => o,
                    None => { self.bad(&["C12"], format!("section {} of {} has no output section", s.name, self.who(oi))); continue; }
                };
                let (flags, with_empty, stored) = kinds[&s.name];
                let flags = flags | out.flags & with_empty;
                if out.flags & (A | W | X | TLS) != flags & (A | W | X | TLS) { self.bad(&["C12", "C13"], format!("output section {} has flags {:#x}, its inputs have {:#x}, {} has {:#x}", s.name, out.flags, flags, self.who(oi), s.flags)); }
                if out.typ == SHT_NOBITS && s.typ != SHT_NOBITS || out.typ != SHT_NOBITS && !stored { self.bad(&["C12"], format!("output section {} has type {}, its input has {}", s.name, out.typ, s.typ)); }
                if s.typ == SHT_NOBITS { continue; }
                let (off, pat) = match marker(&l.o, si) { Some(x) => x, None => continue };
                let hits = find_all(&out.data, &pat);
                // the same object may be linked twice
                let twins: Vec<usize> = (0..self.m.objs.len()).filter(|t| *t == oi || !self.m.objs[*t].gone.contains(&si) && same(&self.m.objs[*t].raw, &l.raw)).collect();
                let hits = if hits.len() == twins.len() { vec![hits[twins.iter().position(|t| *t == oi).unwrap()]] } else { hits };
                if hits.len() != 1 || hits[0] < off {
                    let mut p = vec!["C12"];
                    if l.member.is_some() { p.push("C10"); p.push("C11"); } else { p.push("C11"); }
                    self.bad(&p, format!("contents of section {} (number {}) of {} occur {} times in the output section", s.name, si, self.who(oi), hits.len()));
                    continue;
                }
                let start = hits[0] - off;
                if start + s.data.len() > out.data.len() { self.bad(&["C12"], format!("section {} of {} runs past the end of the output section", s.name, self.who(oi))); continue; }
                let mk = masked(&l.o, si);
                if let Some(k) = (0..s.data.len()).find(|k| !mk[*k] && out.data[start + k] != s.data[*k]) {
                    self.bad(&["C12", "C14"], format!("byte {:#x} of section {} of {} is {:02x} in the output, {:02x} in the input", k, s.name, self.who(oi), out.data[start + k], s.data[k]));
                }
                if find_all(&self.img.raw, &pat).len() != twins.len() { self.bad(&["C12"], format!("contents of section {} of {} occur several times in the output file", s.name, self.who(oi))); }
                self.base[oi].insert(si, out.addr + start as u64);
            }
        }
        // sections without a recognisable content: located through a witness (a stored 64-bit address)
        for (oi, l) in m.objs.iter().enumerate() {
            for si in linked_sections(&l.o) {
                if self.base[oi].contains_key(&si) { continue; }
                let mut found = None;
                for r in &l.o.rels {
                    if r.typ != R_64 && r.typ != R_TPOFF32 { continue; }
                    let y = match l.o.syms.get(r.sym) { Some(y) => y, None => continue };
                    if y.bind != LOCAL || y.shndx as usize != si || (y.typ == STT_TLS) != (r.typ == R_TPOFF32) { continue; }
                    let b = match self.base[oi].get(&r.sec) { Some(b) => *b, None => continue };
                    let hs = &l.o.secs[r.sec];
                    let v = if r.typ == R_TPOFF32 { self.tls.and_then(|t| mem.r32(b + r.off).map(|v| (v as i32 as i64 as u64).wrapping_add(t.1))) } else if hs.flags & A != 0 { mem.r64(b + r.off) } else { self.img.sec(&hs.name).and_then(|o| g64(&o.data, (b - o.addr + r.off) as usize)) };
                    if let Some(v) = v { found = Some((v.wrapping_sub(r.addend as u64).wrapping_sub(y.value), r.sec, r.off)); break; }
                }
                if let Some((v, _, _)) = found { self.base[oi].insert(si, v); }
            }
        }
        // alignment, bounds, order, disjointness
        let mut per: BTreeMap<String, Vec<(u64, u64, usize, usize, u64)>> = BTreeMap::new();
        for (oi, l) in m.objs.iter().enumerate() {
            for si in linked_sections(&l.o) {
                let s = &l.o.secs[si];
                let b = match self.base[oi].get(&si) { Some(b) => *b, None => continue };
                let out = match self.img.sec(&s.name) { Some(o) => o, None => continue };
                if s.flags & A != 0 && s.align > 1 && b % s.align != 0 { self.bad(&["C12"], format!("section {} of {} is placed at {:#x}, its alignment is {:#x}", s.name, self.who(oi), b, s.align)); }
                if b < out.addr || b + s.size > out.addr + out.size {
                    self.bad(&["C12"], format!("section {} of {} resolves to [{:#x},{:#x}), outside the output section [{:#x},{:#x})", s.name, self.who(oi), b, b + s.size, out.addr, out.addr + out.size));
                    continue;
                }
                if s.typ == SHT_NOBITS && !tbss(s) && mem.read(b, s.size as usize).map(|v| v.iter().any(|x| *x != 0)).unwrap_or(true) { self.bad(&["C12", "C13"], format!("memory for section {} of {} is not zeroed", s.name, self.who(oi))); }
                per.entry(s.name.clone()).or_default().push((b, b + s.size, oi, si, s.prio));
            }
        }
        for (name, mut v) in per {
            v.sort_by_key(|x| x.4);
            for w in v.windows(2) {
                // input order holds among the objects of the command line, and within each object
                if (w[0].2 == w[1].2 || w[0].2 < m.n_direct || w[0].4 != w[1].4) && w[0].0 > w[1].0 {
                    let msg = format!("in output section {} the contribution of {} (section {}) comes after that of {} (section {})", name, self.who(w[0].2), w[0].3, self.who(w[1].2), w[1].3);
                    self.bad(if name.contains("_array") || name == ".init" || name == ".fini" { &["C12", "C19"] } else { &["C12"] }, msg);
                }
            }
            v.sort();
            for w in v.windows(2) {
                if w[0].1 > w[1].0 { let msg = format!("in output section {} the contributions of {} [{:#x},{:#x}) and {} [{:#x},{:#x}) overlap", name, self.who(w[0].2), w[0].0, w[0].1, self.who(w[1].2), w[1].0, w[1].1); self.bad(&["C12"], msg); }
            }
            if name == ".init" || name == ".fini" {
                let out = self.img.sec(&name).unwrap();
                let mut pos = out.addr;
                for x in v.iter().map(|x| (x.0, x.1)).chain([(out.addr + out.size, 0)]) {
                    for a in pos..x.0 { if out.data[(a - out.addr) as usize] != 0x90 { self.bad(&["C19"], format!("byte {:#x} between the fragments of {} is no instruction of any input", a, name)); break; } }
                    pos = x.1;
                }
            }
        }
    }

    /// C10: nothing of a member that was not needed may be present.
    fn skipped(&mut self) {
        self.st.members += self.m.skipped.len() as u64 + self.m.objs.iter().filter(|o| o.member.is_some()).count() as u64;
        let mut known: BTreeSet<&str> = BTreeSet::new();
        for l in &self.m.objs { for s in &l.o.syms { known.insert(&s.name); } }
        let have: BTreeSet<&str> = self.img.o.syms.iter().filter(|s| s.bind != LOCAL).map(|s| s.name.as_str()).collect();
        for l in &self.m.skipped {
            let who = format!("{}({})", l.path, l.member.clone().unwrap_or_default());
            for si in linked_sections(&l.o) {
                if l.o.secs[si].typ == SHT_NOBITS { continue; }
                if let Some((_, pat)) = marker(&l.o, si) {
                    if !find_all(&self.img.raw, &pat).is_empty() { self.bad(&["C10"], format!("section {} of member {}, which is not needed, is in the output", l.o.secs[si].name, who)); }
                }
            }
            for s in &l.o.syms {
                if s.bind != LOCAL && s.shndx != 0 && !s.name.is_empty() && !known.contains(s.name.as_str()) && have.contains(s.name.as_str()) {
                    self.bad(&["C10"], format!("symbol {} of member {}, which is not needed, is in the output", s.name, who));
                }
            }
        }
    }

    /// Of the COMDAT groups with one signature only the first is linked.
    fn discarded(&mut self) {
        let m = self.m;
        let mut known: BTreeSet<&str> = BTreeSet::new();
        for l in &m.objs { for s in &l.o.syms { known.insert(&s.name); } }
        for (oi, l) in m.objs.iter().enumerate() {
            for si in l.gone.iter().copied() {
                let s = match l.raw.secs.get(si) { Some(s) if s.typ != SHT_NOBITS && !SKIPPED.contains(&s.typ) => s, _ => continue };
                self.st.discarded += 1;
                let pat = match marker(&l.raw, si) { Some((_, p)) => p, None => continue };
                if m.objs.iter().any(|k| k.o.secs.iter().any(|x| !find_all(&x.data, &pat).is_empty())) { continue; }
                if !find_all(&self.img.raw, &pat).is_empty() { self.bad(&["C12", "C07", "C09"], format!("section {} of {}, of a group that was linked before, is in the output", s.name, self.who(oi))); }
            }
            for s in l.raw.syms.iter().filter(|s| s.bind == LOCAL && s.typ != SECTION && l.gone.contains(&(s.shndx as usize)) && !known.contains(s.name.as_str())) {
                if self.img.o.syms.iter().any(|y| y.name == s.name) { self.bad(&["C20", "C08"], format!(".symtab has {}, a local symbol of a section that {} does not contribute", s.name, self.who(oi))); }
            }
        }
        for s in self.img.o.secs.iter().filter(|s| s.flags & 0x200 != 0 || s.typ == SHT_GROUP) {
            self.bad(&["C20", "C12"], format!("section {} of the output (type {}, flags {:#x}) claims to belong to a group", s.name, s.typ, s.flags));
        }
    }

    /// DT_NEEDED against the model, read without starting the loader (which would refuse a foreign name).
    fn needed_raw(&mut self, mem: &Mem) {
        let d = match self.img.ph.iter().find(|p| p.typ == PT_DYNAMIC) { Some(d) => *d, None => return };
        let mut ents = vec![];
        let mut a = d.vaddr;
        while a + 16 <= d.vaddr + d.memsz { match (mem.r64(a), mem.r64(a + 8)) { (Some(t), Some(v)) => { if t == 0 { break; } ents.push((t, v)); } _ => return } a += 16; }
        let st = match ents.iter().find(|e| e.0 == 5) { Some(e) => e.1, None => return };
        let mut got = vec![];
        for (_, v) in ents.iter().filter(|e| e.0 == 1) {
            let mut s = vec![];
            let mut p = st.wrapping_add(*v);
            while let Some(b) = mem.byte(p) { if b == 0 || s.len() > 500 { break; } s.push(b); p += 1; }
            got.push(String::from_utf8_lossy(&s).into_owned());
        }
        let loader = self.m.interp.rsplit('/').next().unwrap_or("").to_string();
        if got.first() != Some(&loader) { self.bad(&["C18"], format!("DT_NEEDED list {:?} does not start with the dynamic loader {}", got, loader)); }
        let mut seen = BTreeSet::new();
        for g in &got { if !seen.insert(g.clone()) { self.bad(&["C18"], format!("DT_NEEDED {} appears twice", g)); } }
        let mut must = vec![];
        let mut may = BTreeSet::new();
        let mut earlier = BTreeSet::new();
        for l in &self.m.libs {
            if l.needed_name == loader { continue; }
            if !l.as_needed || l.supplies { if !must.iter().any(|(n, _)| *n == l.needed_name) { must.push((l.needed_name.clone(), l.from_script || earlier.contains(&l.needed_name))); } }
            // it may be there since an earlier mention, for the sake of a weak reference
            if l.supplies_weakly { earlier.insert(l.needed_name.clone()); }
            if l.supplies_weakly || !l.as_needed || l.supplies { may.insert(l.needed_name.clone()); }
        }
        for (n, _) in &must { if !seen.contains(n) { self.bad(&["C18", "C11"], format!("DT_NEEDED list {:?} lacks {}", got, n)); } }
        for g in got.iter().skip(1) { if !may.contains(g) { self.bad(&["C18"], format!("DT_NEEDED {} names a library that is not needed (list {:?})", g, got)); } }
        let order: Vec<&String> = must.iter().filter(|(_, s)| !*s).map(|(n, _)| n).collect();
        let got_order: Vec<&String> = got.iter().filter(|g| order.contains(g)).collect();
        if got_order.len() == order.len() && got_order != order { self.bad(&["C18"], format!("DT_NEEDED order {:?}, command line order {:?}", got_order, order)); }
    }

    fn dynamic(&mut self, p: &Proc) {
        let mut seen = BTreeSet::new();
        for (t, _) in &p.dynamic { if *t != 1 && !seen.insert(*t) { self.bad(&["C18", "C19"], format!("DT_{} appears twice", dt_name(*t))); } }
        let img = self.img;
        if let Some(ds) = img.o.secs.iter().find(|s| s.typ == SHT_DYNAMIC) {
            let n = p.dynamic.len() * 16;
            if ds.data.len() < n + 16 || ds.data[n..].iter().any(|b| *b != 0) { self.bad(&["C18"], "data follows DT_NULL in the dynamic section".into()); }
            if ds.ent != 16 { self.bad(&["C18"], format!("dynamic section entry size {}", ds.ent)); }
        }
        let by_type = |t: u32| img.o.secs.iter().skip(1).find(|s| s.typ == t);
        let dynsym = by_type(SHT_DYNSYM);
        let dynstr = dynsym.and_then(|s| img.o.secs.get(s.link as usize));
        // an empty table may share its address with the other one
        let relatab = |a: Option<&u64>, sz: Option<&u64>| a.and_then(|a| {
            let at = || img.o.secs.iter().skip(1).filter(|s| s.typ == SHT_RELA && s.addr == *a);
            at().find(|s| Some(&s.size) == sz).or(at().next())
        });
        let (hs, gs) = (self.m.hash_style & 1 != 0, self.m.hash_style & 2 != 0);
        let mut want: Vec<(u64, Option<u64>, bool)> = vec![
            (4, by_type(SHT_HASH).map(|s| s.addr), hs),
            (0x6ffffef5, by_type(SHT_GNU_HASH).map(|s| s.addr), gs),
            (5, dynstr.map(|s| s.addr), true), (10, dynstr.map(|s| s.size), true),
            (6, dynsym.map(|s| s.addr), true), (11, Some(24), true),
        ];
        let rd: Vec<&PSec> = img.o.secs.iter().skip(1).filter(|s| s.typ == SHT_RELA && s.flags & A != 0).collect();
        let jmp = relatab(p.tags.get(&23), p.tags.get(&2));
        let rela = relatab(p.tags.get(&7), p.tags.get(&8));
        let dynrel_rest: u64 = rd.iter().filter(|s| Some(s.idx) != jmp.map(|j| j.idx)).map(|s| s.size).sum();
        if rela.is_some() || dynrel_rest > 0 {
            want.push((7, rela.map(|s| s.addr), true));
            want.push((8, rela.map(|s| s.size), true));
            want.push((9, Some(24), true));
            if rela.map(|r| r.size) != Some(dynrel_rest) && dynrel_rest > 0 { self.bad(&["C18"], "DT_RELA does not cover the dynamic relocations".into()); }
        }
        if jmp.is_some() || p.tags.contains_key(&23) {
            want.push((23, jmp.map(|s| s.addr), true));
            want.push((2, jmp.map(|s| s.size), true));
            want.push((20, Some(7), true));
            want.push((3, img.sec(".got.plt").map(|s| s.addr), true));
        }
        for (tag_a, tag_s, typ, name) in [(25u64, Some(27u64), SHT_INIT_ARRAY, ".init_array"), (26, Some(28), SHT_FINI_ARRAY, ".fini_array"), (32, Some(33), SHT_PREINIT_ARRAY, ".preinit_array"), (12, None, 0, ".init"), (13, None, 0, ".fini")] {
            let s = img.sec(name).filter(|s| typ == 0 || s.typ == typ).filter(|s| s.size > 0);
            let inputs = self.m.objs.iter().any(|l| l.o.secs.iter().any(|s| s.name == name && s.size > 0));
            if inputs && s.is_none() { self.bad(&["C12", "C19"], format!("no output section {}", name)); }
            if p.tags.contains_key(&tag_a) || inputs {
                want.push((tag_a, s.map(|s| s.addr).or(img.sec(name).map(|s| s.addr)), inputs));
                if let Some(t) = tag_s { want.push((t, s.map(|s| s.size).or(Some(0)), inputs)); }
            }
        }
        for (t, v, need) in want {
            let got = p.tags.get(&t).copied();
            if got.is_none() && !need { continue; }
            if got != v {
                let mut pr = vec!["C18"];
                if [25, 26, 27, 28, 12, 13, 32, 33].contains(&t) { pr.push("C19"); }
                if t == 4 || t == 0x6ffffef5 { pr.push("C17"); }
                self.bad(&pr, format!("DT_{} is {}, the table has {}", dt_name(t), got.map(|x| format!("{:#x}", x)).unwrap_or("missing".into()), v.map(|x| format!("{:#x}", x)).unwrap_or("none".into())));
            }
        }
        if !hs && p.tags.contains_key(&4) { self.bad(&["C18"], "DT_HASH although not asked for".into()); }
        if !gs && p.tags.contains_key(&0x6ffffef5) { self.bad(&["C18"], "DT_GNU_HASH although not asked for".into()); }
        if let Some(rc) = p.tags.get(&0x6ffffff9) {
            if p.rela.iter().take(*rc as usize).filter(|r| r.1 == R_RELATIVE).count() as u64 != *rc { self.bad(&["C18"], format!("DT_RELACOUNT {} is wrong", rc)); }
        }
        if let Some(d) = dynsym {
            if d.size as usize / 24 != p.nsyms && p.tags.contains_key(&4) { self.bad(&["C17", "C18"], format!("DT_HASH covers {} of {} symbols", p.nsyms, d.size / 24)); }
            if d.ent != 24 { self.bad(&["C18", "C20"], format!(".dynsym entry size {}", d.ent)); }
        }
    }

    fn copyrels(&mut self, mem: &Mem, p: &mut Proc) {
        let m = self.m;
        let mut used: Vec<(u64, u64, String)> = vec![];
        let rel: Vec<(u64, String, u64)> = p.rela.iter().filter(|r| r.1 == R_COPY).map(|r| (r.0, p.syms[r.2].name.clone(), p.syms[r.2].size)).collect();
        for (n, b) in &m.binds {
            let (li, si) = match b { Bind::Import(l, s) => (*l, *s), _ => continue };
            let ls = &m.libs[li].o.dynsyms[si];
            if ls.typ != OBJECT { continue; }
            self.st.copies += 1;
            // all the names that lead to this object: those of its library that no earlier library defines
            let theirs = |name: &str| m.libs.iter().enumerate().any(|(i, l)| i < li && l.o.dynsyms.iter().any(|z| z.name == name && z.shndx != 0));
            let same: Vec<&PSym> = m.libs[li].o.dynsyms.iter().filter(|y| y.shndx != 0 && y.bind != LOCAL && y.typ == OBJECT && y.size > 0 && y.shndx == ls.shndx && y.value == ls.value && (y.name == *n || matches!(m.binds.get(&y.name), Some(Bind::Import(l, _)) if *l == li) || !theirs(&y.name))).collect();
            let mine: Vec<&(u64, String, u64)> = rel.iter().filter(|r| r.1 == *n || same.iter().any(|y| y.name == r.1)).collect();
            if mine.is_empty() || mine.iter().any(|r| r.0 != mine[0].0) { self.bad(&["C16"], format!("imported object {} has copy relocations at {:x?}", n, mine.iter().map(|r| r.0).collect::<Vec<_>>())); continue; }
            let a = mine[0].0;
            self.copies.insert(n.clone(), a);
            if mem.read(a, ls.size as usize).map(|v| v.iter().any(|b| *b != 0)).unwrap_or(true) || (0..ls.size).any(|k| mem.flags(a + k).map(|f| f & 2 == 0).unwrap_or(true)) {
                self.bad(&["C16"], format!("the copy of {} at {:#x} ({} bytes) is not zeroed writable memory", n, a, ls.size));
            }
            let host = self.img.sec_at(a);
            if host.map(|h| a + ls.size > h.addr + h.size || h.flags & W == 0).unwrap_or(true) { self.bad(&["C16"], format!("the copy of {} at {:#x} ({} bytes) is not inside a writable section", n, a, ls.size)); }
            if !used.iter().any(|u| u.0 == a && same.iter().any(|y| y.name == u.2)) { used.push((a, a + ls.size, n.clone())); }
            let al = (ls.size & ls.size.wrapping_neg()).clamp(1, 16);
            if a % al != 0 { self.bad(&["C16"], format!("the copy of {} (size {}) at {:#x} is not aligned to {}", n, ls.size, a, al)); }
            let want: Vec<u8> = (0..ls.size).map(|k| Lib::data_byte(lib_id(&m.libs[li].o), ls.value + k)).collect();
            if p.mem.read(a, ls.size as usize).as_ref() != Some(&want) { self.bad(&["C16"], format!("after loading, the copy of {} does not hold the library's {} bytes", n, ls.size)); }
            match p.lookup(n, 0) {
                Ok(Some(x)) if x == a => {}
                Ok(x) => self.bad(&["C16", "C17"], format!("the library looks {} up at {:x?}, its copy is at {:#x}", n, x, a)),
                Err(e) => self.bad(&["C16", "C17"], format!("looking {} up: {}", n, e)),
            }
            for y in self.img.o.dynsyms.iter().filter(|y| y.name == *n || same.iter().any(|z| z.name == y.name && !matches!(m.binds.get(&z.name), Some(Bind::Def(..))))) {
                let inside = y.shndx != 0 && self.img.o.secs.get(y.shndx as usize).map(|s| y.value >= s.addr && y.value + y.size <= s.addr + s.size).unwrap_or(false);
                if !inside && y.value == a { self.bad(&["C16", "C20"], format!("the dynamic symbol {} of the copy at {:#x} says that it is in section {}", y.name, a, y.shndx)); }
            }
            // the library finds the copy by each of its names, unless another definition precedes it
            for y in same {
                if y.name == *n || theirs(&y.name) || matches!(m.binds.get(&y.name), Some(Bind::Def(..))) { continue; }
                self.st.aliases += 1;
                match p.lookup(&y.name, 0) {
                    Ok(Some(x)) if x == a => {}
                    Ok(x) => self.bad(&["C16"], format!("the library looks its object {} up by its other name {} at {:x?}, its copy is at {:#x}", n, y.name, x, a)),
                    Err(e) => self.bad(&["C16", "C17"], format!("looking {} up: {}", y.name, e)),
                }
            }
        }
        for (n, _) in rel.iter().map(|r| (&r.1, 0)) {
            let alias = m.binds.values().any(|b| match b { Bind::Import(l, s) => { let d = &m.libs[*l].o.dynsyms; d[*s].typ == OBJECT && d.iter().any(|y| y.name == *n && y.shndx == d[*s].shndx && y.value == d[*s].value) } _ => false });
            if matches!(m.binds.get(n), Some(Bind::Def(..))) { self.bad(&["C16"], format!("copy relocation for {}, which the inputs define", n)); }
            if !alias && !matches!(m.binds.get(n), Some(Bind::Import(..))) { self.bad(&["C16"], format!("copy relocation for {}, which is not imported", n)); }
        }
        // contributions of inputs
        for (oi, l) in m.objs.iter().enumerate() {
            for (si, b) in &self.base[oi] { let s = &l.o.secs[*si]; if s.flags & A != 0 { used.push((*b, *b + s.size, format!("section {} of {}", s.name, self.who(oi)))); } }
        }
        used.sort();
        for w in used.windows(2) {
            if w[0].1 > w[1].0 && (self.copies.contains_key(&w[0].2) || self.copies.contains_key(&w[1].2)) { let msg = format!("{} [{:#x},{:#x}) and {} [{:#x},{:#x}) overlap", w[0].2, w[0].0, w[0].1, w[1].2, w[1].0, w[1].1); self.bad(&["C16"], msg); }
        }
    }

    fn place(&self, oi: usize, si: usize) -> Option<u64> {
        let y = &self.m.objs[oi].o.syms[si];
        match y.shndx {
            0 => None,
            0xfff1 => Some(y.value),
            0xfff2 => self.common(&y.name),
            k => self.base[oi].get(&(k as usize)).map(|b| b.wrapping_add(y.value)),
        }
    }
    /// What the symbol table has to say: a thread-local variable's value is its offset in the block.
    fn symval(&self, oi: usize, si: usize) -> Option<u64> {
        let y = &self.m.objs[oi].o.syms[si];
        let v = self.place(oi, si)?;
        if y.typ == STT_TLS && (y.shndx < 0xff00 || y.shndx == 0xfff2) { self.tls.map(|t| v.wrapping_sub(t.0)) } else { Some(v) }
    }
    /// Tentative definitions: one zeroed place of its own for each name.
    fn commons(&mut self, p: &Proc) {
        let m = self.m;
        if m.commons.is_empty() { return; }
        let mut used: Vec<(u64, u64, String)> = self.copies.iter()
            .filter_map(|(n, a)| match m.binds.get(n) { Some(Bind::Import(li, si)) => Some((*a, *a + m.libs[*li].o.dynsyms[*si].size, format!("the copy of {}", n))), _ => None }).collect();
        // thread-local ones have their places in the block of each thread, apart from the others
        let mut used_tls: Vec<(u64, u64, String)> = vec![];
        for (oi, l) in m.objs.iter().enumerate() {
            for (si, b) in &self.base[oi] {
                let s = &l.o.secs[*si];
                if s.flags & A != 0 { if s.flags & TLS != 0 { &mut used_tls } else { &mut used }.push((*b, *b + s.size, format!("section {} of {}", s.name, self.who(oi)))); }
            }
        }
        for (n, (size, align)) in &m.commons {
            let a = match self.common(n) { Some(a) => a, None => { self.bad(&["C07", "C12"], format!("common symbol {} is given no place", n)); continue; } };
            if a % align != 0 { self.bad(&["C12", "C07"], format!("common symbol {} is at {:#x}, its alignment is {}", n, a, align)); }
            if let Some(Bind::Def(o, y)) = m.binds.get(n) {
                if m.objs[*o].o.syms[*y].typ == STT_TLS {
                    let seg = self.img.ph.iter().find(|h| h.typ == PT_TLS).map(|h| (h.vaddr, h.filesz, h.memsz));
                    let ok = seg.map_or(false, |(v, f, z)| a >= v && a + size <= v + z && (a..a + size).all(|x| x >= v + f || p.mem.read(x, 1).map_or(false, |b| b[0] == 0)));
                    if !ok { self.bad(&["C24", "C12", "C07"], format!("thread-local common symbol {} at {:#x} ({} bytes) is not in zeroed thread-local storage", n, a, size)); }
                    used_tls.push((a, a + size, format!("common symbol {}", n)));
                    continue;
                }
            }
            let host = self.img.sec_at(a);
            if host.map(|h| a + size > h.addr + h.size || h.flags & W == 0).unwrap_or(true) { self.bad(&["C12", "C07"], format!("common symbol {} at {:#x} ({} bytes) is not inside a writable section", n, a, size)); }
            else if p.mem.read(a, *size as usize).map(|v| v.iter().any(|x| *x != 0)).unwrap_or(true) { self.bad(&["C12", "C07"], format!("memory for common symbol {} is not zeroed", n)); }
            used.push((a, a + size, format!("common symbol {}", n)));
        }
        for mut used in [used, used_tls] {
            used.sort();
            for w in used.windows(2) {
                if w[0].1 > w[1].0 && (w[0].2.starts_with("common") || w[1].2.starts_with("common")) { let msg = format!("{} [{:#x},{:#x}) and {} [{:#x},{:#x}) overlap", w[0].2, w[0].0, w[0].1, w[1].2, w[1].0, w[1].1); self.bad(&["C12", "C07"], msg); }
            }
        }
    }

    /// A COMMON symbol's place can only be learnt from the output's symbol table.
    fn common(&self, n: &str) -> Option<u64> { self.img.o.syms.iter().find(|s| s.name == n && s.bind != LOCAL && s.shndx != 0 && s.shndx < 0xff00).map(|s| if s.typ == STT_TLS { s.value.wrapping_add(self.tls.map_or(0, |t| t.0)) } else { s.value }) }

    fn target(&self, p: &Proc, oi: usize, sym: usize) -> Target {
        if sym == 0 { return Target::Addr(0); }
        let y = match self.m.objs[oi].o.syms.get(sym) { Some(y) => y, None => return Target::Unknown };
        if nothing(y) { return Target::Addr(0); }
        if y.bind == LOCAL { return self.place(oi, sym).map(Target::Addr).unwrap_or(Target::Unknown); }
        let a = |t: u64| p.tags.get(&t).map(|v| Target::Addr(*v)).unwrap_or(Target::Unknown);
        match self.m.binds.get(&y.name) {
            Some(Bind::Def(o, s)) => self.place(*o, *s).map(Target::Addr).unwrap_or(Target::Unknown),
            Some(Bind::Zero) => Target::Addr(0),
            Some(Bind::Import(l, s)) => if self.m.libs[*l].o.dynsyms[*s].typ == STT_TLS { Target::Tls(y.name.clone(), *l, *s) } else if self.m.libs[*l].o.dynsyms[*s].typ == OBJECT { Target::Data(y.name.clone(), *l, *s) } else { Target::Fn(y.name.clone(), *l, *s) },
            None => match y.name.as_str() {
                "_GLOBAL_OFFSET_TABLE_" => a(3),
                "__init_array_start" => a(25),
                "__fini_array_start" => a(26),
                "__preinit_array_start" => a(32),
                "__preinit_array_end" => match (p.tags.get(&32), p.tags.get(&33)) { (Some(x), Some(n)) => Target::Addr(x + n), _ => Target::Unknown },
                "__init_array_end" => match (p.tags.get(&25), p.tags.get(&27)) { (Some(x), Some(n)) => Target::Addr(x + n), _ => Target::Unknown },
                "__fini_array_end" => match (p.tags.get(&26), p.tags.get(&28)) { (Some(x), Some(n)) => Target::Addr(x + n), _ => Target::Unknown },
                _ => Target::Unknown,
            },
        }
    }

    fn entry(&mut self, p: &Proc) {
        if let Some(Bind::Def(o, s)) = self.m.binds.get("_start") {
            if let Some(a) = self.place(*o, *s) { if a != self.img.entry { self.bad(&["C13", "C07"], format!("the entry point is {:#x}, _start is at {:#x}", self.img.entry, a)); } }
        }
        let _ = p;
    }

    /// Places found by a witness must agree with every other reference; that is checked in relocs().
    fn witness_check(&mut self, _mem: &Mem, _p: &Proc) {}

    fn relocs(&mut self, eager: &mut Proc, lazy: &mut Proc, rng: &mut Rng) {
        let m = self.m;
        let mut calls: Vec<(u64, u64, String)> = vec![]; // (code address, expected function, description)
        for (oi, l) in m.objs.iter().enumerate() {
            for r in &l.o.rels {
                let s = match l.o.secs.get(r.sec) { Some(s) => s, None => continue };
                if s.typ == SHT_NOBITS || SKIPPED.contains(&s.typ) { continue; }
                let b = match self.base[oi].get(&r.sec) { Some(b) => *b, None => continue };
                let out = match self.img.sec(&s.name) { Some(o) => o, None => continue };
                self.st.relocs += 1;
                *self.st.reltypes.entry(rname(r.typ)).or_insert(0) += 1;
                let y = match l.o.syms.get(r.sym) { Some(y) => y, None => continue };
                let t = self.target(eager, oi, r.sym);
                if t == Target::Unknown { continue; }
                let pos = b + r.off;
                let alloc = s.flags & A != 0;
                let opos = (b - out.addr) as usize;
                let rd = |p: &Proc, off: i64, n: usize| -> Option<Vec<u8>> {
                    if alloc { p.mem.read((pos as i64 + off) as u64, n) } else { let k = (opos as i64 + r.off as i64 + off) as usize; out.data.get(k..k + n).map(|x| x.to_vec()) }
                };
                let f = match rd(eager, 0, rsize(r.typ)) { Some(f) => f, None => continue };
                let what = format!("{} relocation at {}+{:#x} of {} (address {:#x}) against {}{}{:+}", rname(r.typ), s.name, r.off, self.who(oi), pos,
                    if y.bind == LOCAL { "local " } else { "" }, if y.typ == SECTION { format!("section {}", l.o.secs.get(y.shndx as usize).map(|s| s.name.as_str()).unwrap_or("?")) } else { y.name.clone() }, r.addend);
                // which properties a wrong value breaks
                let mut props = vec!["C14"];
                if matches!(r.typ, R_TLSGD | R_GOTTPOFF | R_TPOFF32) { props.push("C24"); }
                if y.bind == LOCAL {
                    props.push("C08");
                    let sn = l.o.secs.get(y.shndx as usize);
                    if sn.map(|s| s.typ == SHT_NOBITS || marker(&l.o, s.idx).is_none()).unwrap_or(false) { props.push("C12"); }
                } else {
                    match &t { Target::Addr(_) => { props.push("C07"); if y.name.contains("_array_") { props.push("C19"); } } Target::Fn(..) => props.push("C15"), Target::Data(..) => props.push("C16"), _ => {} }
                    if y.bind == WEAK && matches!(t, Target::Fn(..) | Target::Data(..)) { props.push("C07"); }
                    if let Some(Bind::Def(o, _)) = m.binds.get(&y.name) { if m.objs[*o].member.is_some() { props.push("C10"); } }
                }
                if !alloc { props.retain(|p| *p != "C15" && *p != "C16"); }
                let a = r.addend as u64;
                let i32v = || g32(&f, 0).unwrap() as u32 as i32 as i64 as u64;
                // `got`: the value of S the field stands for; `load`: it is loaded from memory at run time
                let mut call = false;
                if let (R_TLSGD | R_GOTTPOFF | R_TPOFF32, Some((block, tp))) = (r.typ, self.tls.or(Some((0, 0)))) {
                    // a variable is known by its distance from the thread pointer, or by its module and its place in there
                    let slot = i32v().wrapping_sub(a).wrapping_add(pos);
                    let words = |n: u64| -> Result<Vec<u64>, String> { (0..n).map(|k| eager.mem.r64(slot + 8 * k).ok_or(format!("GOT slot {:#x} is not mapped", slot + 8 * k))).collect() };
                    let got = match r.typ { R_TPOFF32 => Ok(vec![i32v().wrapping_sub(a)]), R_GOTTPOFF => words(1), _ => words(2) };
                    let want = match &t {
                        Target::Addr(x) => if r.typ == R_TLSGD { vec![1, x.wrapping_sub(block)] } else { vec![x.wrapping_sub(tp)] },
                        Target::Tls(_, li, si) => {
                            let nm = &m.libs[*li].needed_name;
                            let module = match eager.libs.iter().position(|x| x.name == *nm) { Some(x) => x as u64 + 2, None => { self.bad(&["C18", "C24"], format!("{}: {} is not loaded", what, nm)); continue; } };
                            let off = m.libs[*li].o.dynsyms[*si].value;
                            if r.typ == R_TLSGD { vec![module, off] } else { vec![Proc::tpoff(module, off)] }
                        }
                        _ => continue,
                    };
                    match got {
                        Ok(g) if g == want => {}
                        Ok(g) => self.bad(&props, format!("{}: {:x?} instead of {:x?} (thread pointer at {:#x})", what, g, want, tp)),
                        Err(e) => self.bad(&props, format!("{}: {}", what, e)),
                    }
                    continue;
                }
                let got: Result<u64, String> = match r.typ {
                    R_GOT32 => {
                        let slot = i32v().wrapping_sub(a).wrapping_add(eager.tags.get(&3).copied().unwrap_or(0));
                        eager.mem.r64(slot).ok_or(format!("GOT slot {:#x} is not mapped", slot))
                    }
                    R_NONE => continue,
                    R_64 => Ok(g64(&f, 0).unwrap().wrapping_sub(a)),
                    R_PC64 => Ok(g64(&f, 0).unwrap().wrapping_sub(a).wrapping_add(pos)),
                    R_32 => Ok(g32(&f, 0).unwrap().wrapping_sub(a)),
                    R_32S => Ok(i32v().wrapping_sub(a)),
                    R_PC32 => Ok(i32v().wrapping_sub(a).wrapping_add(pos)),
                    R_PLT32 => { call = true; Ok(i32v().wrapping_sub(a).wrapping_add(pos)) }
                    R_GOTPCREL => {
                        let slot = i32v().wrapping_sub(a).wrapping_add(pos);
                        eager.mem.r64(slot).ok_or(format!("GOT slot {:#x} is not mapped", slot))
                    }
                    R_GOTPCRELX | R_REX_GOTPCRELX => {
                        let rex = r.typ == R_REX_GOTPCRELX;
                        let k = if rex { 3 } else { 2 };
                        let orig = &s.data[r.off as usize - k..r.off as usize];
                        let now = match rd(eager, -(k as i64), k + 4) { Some(n) => n, None => continue };
                        let slot = i32v().wrapping_sub(a).wrapping_add(pos);
                        if now[..k] == *orig {
                            if orig[k - 2] == 0xff { call = true; }
                            eager.mem.r64(slot).ok_or(format!("GOT slot {:#x} is not mapped", slot))
                        } else if !rex && (orig == [0xff, 0x15] || orig == [0xff, 0x25]) {
                            call = true;
                            let op = if orig[1] == 0x15 { 0xe8 } else { 0xe9 };
                            if now[0] == op && now[5] == 0x90 { Ok((g32(&now, 1).unwrap() as u32 as i32 as i64 as u64).wrapping_add(pos - 2 + 5)) }
                            else if (now[0] == 0x67 || now[0] == 0x90) && now[1] == op { Ok(i32v().wrapping_add(pos + 4)) }
                            else { Err(format!("instruction rewritten to {:02x?}", now)) }
                        } else if now[k - 2] == 0x8d && now[k - 1] == orig[k - 1] && (!rex || now[0] == orig[0]) {
                            Ok(i32v().wrapping_add(pos + 4))
                        } else if now[k - 2] == 0xc7 && orig[k - 2] == 0x8b && now[k - 1] == 0xc0 | (orig[k - 1] >> 3 & 7) && (!rex || now[0] == (orig[0] & 0x48 | (orig[0] >> 2 & 1))) {
                            Ok(i32v())
                        } else { Err(format!("instruction {:02x?} rewritten to {:02x?}", orig, now)) }
                    }
                    _ => continue,
                };
                let got = match got { Ok(g) => g, Err(e) => { self.bad(&props, format!("{}: {}", what, e)); continue; } };
                // narrow fields: compare modulo nothing, S+A fits by the model's range check
                match &t {
                    Target::Addr(x) => if got != *x { self.bad(&props, format!("{} denotes {:#x} instead of {:#x}", what, got, x)); },
                    Target::Data(n, _, _) => if r.typ == R_PLT32 {} else if let Some(c) = self.copies.get(n) { if got != *c { self.bad(&props, format!("{} denotes {:#x}, the copy of {} is at {:#x}", what, got, n, c)); } },
                    Target::Fn(n, li, fi) => {
                        let nm = &m.libs[*li].needed_name;
                        let lib = match eager.libs.iter().find(|x| x.name == *nm) { Some(x) => x, None => { self.bad(&["C15", "C18"], format!("{}: {} is not loaded", what, nm)); continue; } };
                        let want = lib.addr(*fi);
                        let _ = (n, call);
                        self.st.imports_called += 1;
                        match eager.follow(got) {
                            Ok(x) if x == want => {}
                            Ok(x) => self.bad(&props, format!("{} reaches {:#x} instead of function {} at {:#x}", what, x, n, want)),
                            Err(e) => self.bad(&props, format!("{} does not reach function {}: {}", what, n, e)),
                        }
                        // the same place under lazy binding, later and in another order
                        if alloc {
                            let code = if r.typ == R_GOT32 { lazy.mem.r64(i32v().wrapping_sub(a).wrapping_add(eager.tags.get(&3).copied().unwrap_or(0))).unwrap_or(got) } else if r.typ == R_GOTPCREL || ((r.typ == R_GOTPCRELX || r.typ == R_REX_GOTPCRELX) && i32v().wrapping_sub(a).wrapping_add(pos) != got) {
                                let slot = i32v().wrapping_sub(a).wrapping_add(pos);
                                lazy.mem.r64(slot).unwrap_or(got)
                            } else if r.typ == R_64 { lazy.mem.r64(pos).map(|v| v.wrapping_sub(a)).unwrap_or(got) } else { got };
                            calls.push((code, want, what.clone()));
                        }
                    }
                    Target::Tls(..) | Target::Unknown => {}
                }
            }
        }
        for _ in 0..2 {
            rng.shuffle(&mut calls);
            for (code, want, what) in &calls {
                match lazy.follow(*code) {
                    Ok(x) if x == *want => {}
                    Ok(x) => { self.bad(&["C15"], format!("with lazy binding, {} reaches {:#x} instead of {:#x}", what, x, want)); }
                    Err(e) => { self.bad(&["C15"], format!("with lazy binding, {}: {}", what, e)); }
                }
            }
        }
    }

    fn arrays(&mut self, p: &Proc) {
        for (name, ta, ts) in [(".init_array", 25u64, 27u64), (".fini_array", 26, 28), (".preinit_array", 32, 33)] {
            let mut want: BTreeMap<u64, Vec<(Vec<u64>, usize)>> = BTreeMap::new();
            let mut known = true;
            for (oi, l) in self.m.objs.iter().enumerate() {
                for s in l.o.secs.iter().filter(|s| s.name == name && s.size > 0) {
                    let mut v = vec![];
                    for k in 0..s.size / 8 {
                        let r: Vec<&PRel> = l.o.rels.iter().filter(|r| r.sec == s.idx && r.off == k * 8 && r.typ == R_64).collect();
                        match r.len() {
                            0 => v.push(g64(&s.data, (k * 8) as usize).unwrap()),
                            1 => match self.target(p, oi, r[0].sym) { Target::Addr(a) => v.push(a.wrapping_add(r[0].addend as u64)), _ => { v.push(0); known = false; } },
                            _ => known = false,
                        }
                    }
                    want.entry(s.prio).or_default().push((v, oi));
                }
            }
            if want.is_empty() || !known { continue; }
            let (a, n) = match (p.tags.get(&ta), p.tags.get(&ts)) { (Some(a), Some(n)) => (*a, *n), _ => { self.bad(&["C19"], format!("no DT entries for {}", name)); continue; } };
            let got: Option<Vec<u64>> = (0..n / 8).map(|k| p.mem.r64(a + 8 * k)).collect();
            let got = match got { Some(g) if n % 8 == 0 => g, _ => { self.bad(&["C19"], format!("{} array of {} bytes at {:#x} is not mapped", name, n, a)); continue; } };
            self.st.ctors += got.len() as u64;
            let all: Vec<u64> = want.values().flatten().flat_map(|w| w.0.clone()).collect();
            // lower priorities first; within one, what the command line names comes first, in order
            let mut rest = &got[..];
            let mut ok = got.len() == all.len();
            for g in want.values() {
                if !ok { break; }
                let mut w: Vec<u64> = g.iter().flat_map(|w| w.0.clone()).collect();
                let d: usize = g.iter().filter(|w| w.1 < self.m.n_direct).map(|w| w.0.len()).sum();
                let (have, r) = rest.split_at(w.len());
                rest = r;
                ok = have[..d] == w[..d];
                let mut h = have.to_vec();
                h.sort();
                w.sort();
                ok &= h == w;
            }
            if !ok { self.bad(&["C19"], format!("{} holds {:x?} instead of {:x?}", name, got, all)); }
        }
    }

    fn symtab(&mut self) {
        let img = self.img;
        let m = self.m;
        let st: Vec<&PSec> = img.o.secs.iter().filter(|s| s.typ == SHT_SYMTAB).collect();
        if st.len() != 1 { self.bad(&["C20"], format!("{} symbol tables", st.len())); return; }
        for s in img.o.secs.iter().skip(1) {
            if s.link as usize >= img.o.secs.len() { self.bad(&["C20"], format!("section {} links to section {} of {}", s.name, s.link, img.o.secs.len())); continue; }
            let lt = img.o.secs[s.link as usize].typ;
            let want = match s.typ { SHT_SYMTAB | SHT_DYNSYM | SHT_DYNAMIC => Some(SHT_STRTAB), SHT_HASH | SHT_GNU_HASH => Some(SHT_DYNSYM), SHT_RELA if s.flags & A != 0 => Some(SHT_DYNSYM), _ => None };
            if let Some(w) = want { if lt != w { self.bad(&["C20"], format!("section {} links to {} (type {:#x})", s.name, img.o.secs[s.link as usize].name, lt)); } }
        }
        for s in img.o.secs.iter().skip(1) {
            let plain = matches!(s.typ, SHT_PROGBITS | SHT_NOBITS) || ARRAYS.iter().any(|a| a.0 == s.typ);
            if plain && s.flags & 0xc0 == 0 && (s.link != 0 || s.info != 0) { self.bad(&["C20"], format!("section {} (type {:#x}) has sh_link {} and sh_info {}", s.name, s.typ, s.link, s.info)); }
        }
        for s in img.o.dynsyms.iter().filter(|s| s.shndx != 0 && s.shndx < 0xff00 && s.typ != STT_TLS) {
            let inside = img.o.secs.get(s.shndx as usize).map(|x| s.value >= x.addr && s.value + s.size <= x.addr + x.size).unwrap_or(false);
            if !inside { self.bad(&["C20"], format!(".dynsym: {} at {:#x} is not in its section {}", s.name, s.value, s.shndx)); }
        }
        for s in img.o.secs.iter().skip(1) {
            if matches!(s.typ, SHT_SYMTAB | SHT_STRTAB) && s.flags & A == 0 && s.flags & (W | X) != 0 { self.bad(&["C20"], format!("section {}, which is not loaded, has flags {:#x}", s.name, s.flags)); }
            if s.flags & A == 0 && s.addr != 0 { self.bad(&["C20", "C13"], format!("section {}, which is not loaded, has the address {:#x}", s.name, s.addr)); }
            let ent = match s.typ { SHT_SYMTAB | SHT_DYNSYM => 24, SHT_RELA if s.flags & A != 0 => 24, SHT_DYNAMIC => 16, _ => continue };
            if s.ent != ent { self.bad(&["C20", "C18"], format!("section {} (type {:#x}) has entries of {} bytes", s.name, s.typ, s.ent)); }
        }
        // the loader takes an import with another visibility for the program's own symbol
        for s in img.o.dynsyms.iter().filter(|s| s.other & 3 != 0) {
            self.bad(match s.typ { OBJECT => &["C16", "C18"], STT_TLS => &["C24", "C18"], _ => &["C15", "C18"] }, format!(".dynsym: {} is imported with visibility {}", s.name, s.other & 3));
        }
        if st[0].ent != 24 { self.bad(&["C20"], format!(".symtab entry size {}", st[0].ent)); }
        for (what, syms, info) in [(".symtab", &img.o.syms, img.o.locals), (".dynsym", &img.o.dynsyms, img.o.dynlocals)] {
            let first = syms.iter().position(|s| s.bind != LOCAL).unwrap_or(syms.len());
            if syms.iter().skip(first).any(|s| s.bind == LOCAL) { self.bad(&["C20"], format!("{}: a local symbol follows a global one", what)); }
            if first as u64 != info { self.bad(&["C20"], format!("{}: sh_info is {}, the first non-local symbol has index {}", what, info, first)); }
            match syms.first() { Some(z) if z.name.is_empty() && z.value == 0 && z.shndx == 0 && z.bind == 0 && z.typ == 0 => {} _ => self.bad(&["C20"], format!("{}: symbol 0 is not null", what)) }
            for s in syms.iter() {
                if s.shndx < 0xff00 && s.shndx as usize >= img.o.secs.len() { self.bad(&["C20"], format!("{}: symbol {} has section index {} of {}", what, s.name, s.shndx, img.o.secs.len())); }
            }
        }
        let outidx = |oi: usize, k: u64| -> Option<u64> { if k == 0xfff1 { return Some(k); } let n = &m.objs[oi].o.secs.get(k as usize)?.name; img.sec(n).map(|s| s.idx as u64) };
        // locals
        let mut have: HashMap<(String, u8, u8, u64, u64, u64), i64> = HashMap::new();
        for s in img.o.syms.iter().filter(|s| s.bind == LOCAL) { *have.entry((s.name.clone(), s.typ, s.other, s.size, s.value, s.shndx)).or_insert(0) += 1; }
        for (oi, l) in m.objs.iter().enumerate() {
            for (si, s) in l.o.syms.iter().enumerate() {
                if s.bind != LOCAL || s.name.is_empty() || s.typ == SECTION || s.shndx == 0 { continue; }
                let (v, x) = match (self.symval(oi, si), outidx(oi, s.shndx)) { (Some(v), Some(x)) => (v, x), _ => continue };
                self.st.symbols += 1;
                let e = have.entry((s.name.clone(), s.typ, s.other, s.size, v, x)).or_insert(0);
                *e -= 1;
                if *e < 0 {
                    let near: Vec<String> = img.o.syms.iter().filter(|y| y.name == s.name && y.bind == LOCAL).map(|y| format!("value {:#x} section {} type {} size {}", y.value, y.shndx, y.typ, y.size)).collect();
                    self.bad(if s.typ == STT_TLS { &["C20", "C24"] } else { &["C20", "C08"] }, format!(".symtab lacks local symbol {} of {}: value {:#x} section {} type {} size {} (it has {:?})", s.name, self.who(oi), v, x, s.typ, s.size, near));
                }
            }
        }
        // globals
        let mut idx: HashMap<&str, Vec<&PSym>> = HashMap::new();
        for s in img.o.syms.iter().filter(|s| s.bind != LOCAL) { idx.entry(s.name.as_str()).or_default().push(s); }
        for (n, b) in &m.binds {
            self.st.symbols += 1;
            let v = idx.get(n.as_str()).cloned().unwrap_or_default();
            if v.len() != 1 { self.bad(&["C20", "C07"], format!(".symtab has {} entries for {}", v.len(), n)); continue; }
            let g = v[0];
            match b {
                Bind::Def(oi, si) => {
                    let d = &m.objs[*oi].o.syms[*si];
                    if let (Some(a), Some(x)) = (self.symval(*oi, *si), if d.shndx == 0xfff2 { None } else { outidx(*oi, d.shndx) }) {
                        if g.value != a || g.shndx != x { self.bad(if d.typ == STT_TLS { &["C20", "C24"] } else { &["C20", "C07"] }, format!("symbol {}: .symtab says value {:#x} section {}, its definition in {} is at {:#x} section {}", n, g.value, g.shndx, self.who(*oi), a, x)); }
                    }
                    let mut seen: Vec<u8> = m.objs.iter().flat_map(|l| l.raw.syms.iter()).filter(|s| s.bind != LOCAL && s.name == *n && s.other & 3 != 0).map(|s| s.other & 3).collect();
                    seen.sort();
                    // that of the definition, or what all who know the symbol agree on
                    let fine = g.other & 3 == d.other & 3 || Some(&(g.other & 3)) == seen.first() || d.shndx == 0xfff2 && (g.other & 3 == 0 || seen.contains(&(g.other & 3)));
                    if !fine { self.bad(&["C20"], format!("symbol {}: .symtab says visibility {}, its definition in {} has {}", n, g.other & 3, self.who(*oi), d.other & 3)); }
                    if g.bind != d.bind || g.typ != d.typ || g.size != m.commons.get(n).map(|c| c.0).unwrap_or(d.size) { self.bad(&["C20", "C07"], format!("symbol {}: .symtab says binding {} type {} size {}, its definition in {} has {} {} {}", n, g.bind, g.typ, g.size, self.who(*oi), d.bind, d.typ, d.size)); }
                }
                Bind::Zero => if g.shndx != 0 || g.value != 0 { self.bad(&["C20", "C07"], format!("unresolved weak symbol {} has value {:#x} section {}", n, g.value, g.shndx)); },
                Bind::Import(..) => if g.shndx != 0 {
                    match self.copies.get(n) { Some(c) if *c == g.value => {} _ => self.bad(&["C20"], format!("imported symbol {} has value {:#x} section {}", n, g.value, g.shndx)) }
                },
            }
        }
        for (n, place) in [("_GLOBAL_OFFSET_TABLE_", img.sec(".got.plt").map(|s| s.addr)), ("__init_array_start", img.sec(".init_array").map(|s| s.addr)), ("__init_array_end", img.sec(".init_array").map(|s| s.addr + s.size)),
                           ("__fini_array_start", img.sec(".fini_array").map(|s| s.addr)), ("__fini_array_end", img.sec(".fini_array").map(|s| s.addr + s.size)),
                           ("__preinit_array_start", img.sec(".preinit_array").map(|s| s.addr)), ("__preinit_array_end", img.sec(".preinit_array").map(|s| s.addr + s.size))] {
            if m.binds.contains_key(n) { continue; }
            if let (Some(v), Some(a)) = (idx.get(n), place) {
                if v.len() != 1 || v[0].value != a || v[0].shndx == 0 { self.bad(if n.starts_with("__") { &["C19", "C20"] } else { &["C20"] }, format!("symbol {} has value {:#x} instead of {:#x}", n, v[0].value, a)); }
            }
        }
    }

    fn hashes(&mut self, p: &mut Proc, rng: &mut Rng) {
        let tables: Vec<(Which, u64)> = [(Which::Sysv, 4u64), (Which::Gnu, 0x6ffffef5)].into_iter().filter(|t| p.tags.contains_key(&t.1)).collect();
        for (w, tag) in tables {
            let first = match w { Which::Sysv => 1, Which::Gnu => p.mem.r32(p.tags[&tag] + 4).unwrap_or(1) as usize };
            let n = p.nsyms;
            for i in 1..n {
                let s = p.syms[i].clone();
                self.st.lookups += 1;
                let defined = s.shndx != 0;
                if i < first && !defined { continue; }
                match p.hash_find(w, &s.name) {
                    Ok(Some(k)) if k == i => {}
                    Ok(k) => self.bad(&["C17"], format!("{:?} hash: looking up {} (symbol {}) finds {:?}", w, s.name, i, k)),
                    Err(e) => self.bad(&["C17"], format!("{:?} hash: looking up {}: {}", w, s.name, e)),
                }
            }
            let names: BTreeSet<String> = p.syms.iter().map(|s| s.name.clone()).collect();
            for k in 0..40 {
                // absent names: random, prefixes, and same-hash neighbours of present names
                let mut nm = format!("absent{}", rng.below(1 << 20));
                if k % 2 == 1 && n > 1 {
                    let b = p.syms[rng.range(1, n - 1)].name.clone();
                    nm = match rng.below(3) { 0 => format!("{}x", b), 1 => b.chars().skip(1).collect(), _ => { let mut v = b.into_bytes(); let l = v.len(); if l >= 2 && v[l - 1] >= 33 + 34 { v[l - 2] = v[l - 2].wrapping_add(1); v[l - 1] -= 33; } String::from_utf8_lossy(&v).into_owned() } };
                }
                if names.contains(&nm) || nm.is_empty() { continue; }
                self.st.lookups += 1;
                match p.hash_find(w, &nm) {
                    Ok(None) => {}
                    Ok(Some(k)) => self.bad(&["C17"], format!("{:?} hash: the absent name {} finds symbol {}", w, nm, k)),
                    Err(e) => self.bad(&["C17"], format!("{:?} hash: looking up the absent name {}: {}", w, nm, e)),
                }
            }
        }
    }
}
