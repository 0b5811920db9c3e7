//! What the kernel and the dynamic loader do with a finished executable, simulated from the ELF and
//! psABI documents: page-granular mapping, dynamic section, symbol look-up through the hash tables,
//! eager and lazy binding.
use crate::elf::*;
use crate::rng::{hash_bytes, Rng};
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Ph { pub typ: u64, pub flags: u64, pub off: u64, pub vaddr: u64, pub filesz: u64, pub memsz: u64, pub align: u64 }

pub const PT_LOAD: u64 = 1;
pub const PT_DYNAMIC: u64 = 2;
pub const PT_INTERP: u64 = 3;
pub const PT_PHDR: u64 = 6;
pub const PT_TLS: u64 = 7;
const PAGE: u64 = 4096;

/// A parsed output file.
#[derive(Clone)]
pub struct Image { pub raw: Vec<u8>, pub entry: u64, pub phoff: u64, pub ph: Vec<Ph>, pub o: PObj, pub shstrndx: u64 }

impl Image {
    pub fn parse(b: &[u8]) -> Result<Image, String> {
        let o = parse(b).ok_or("the file is not a well-formed ELF file (header, section headers, names or symbol tables are out of bounds)")?;
        let (phoff, n, es) = (g64(b, 32).unwrap(), g16(b, 56).unwrap(), g16(b, 54).unwrap());
        if es != 56 { return Err(format!("e_phentsize is {}", es)); }
        let mut ph = vec![];
        for i in 0..n as usize {
            let p = phoff as usize + 56 * i;
            if b.len() < p + 56 { return Err("program headers outside the file".into()); }
            let g = |o| g64(b, p + o).unwrap();
            ph.push(Ph { typ: g32(b, p).unwrap(), flags: g32(b, p + 4).unwrap(), off: g(8), vaddr: g(16), filesz: g(32), memsz: g(40), align: g(48) });
        }
        Ok(Image { raw: b.to_vec(), entry: g64(b, 24).unwrap(), phoff, ph, o, shstrndx: g16(b, 62).unwrap() })
    }
    pub fn sec(&self, name: &str) -> Option<&PSec> { self.o.secs.iter().skip(1).find(|s| s.name == name) }
    /// The allocated section holding an address.
    pub fn sec_at(&self, a: u64) -> Option<&PSec> {
        self.o.secs.iter().skip(1).find(|s| s.flags & A != 0 && a >= s.addr && a < s.addr + s.size)
    }
}

/// Memory as laid out by the kernel and changed by the loader.
pub struct Mem { pages: HashMap<u64, (Box<[u8; 4096]>, u64), std::hash::BuildHasherDefault<PageHash>> }

/// Page numbers spread well enough by a multiplication.
#[derive(Default)]
struct PageHash(u64);
impl std::hash::Hasher for PageHash {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = self.0 << 8 | *x as u64; } }
    fn write_u64(&mut self, v: u64) { self.0 = v.wrapping_mul(0x9e37_79b9_7f4a_7c15); }
}

impl Mem {
    pub fn byte(&self, a: u64) -> Option<u8> { self.pages.get(&(a / PAGE)).map(|p| p.0[(a % PAGE) as usize]) }
    pub fn flags(&self, a: u64) -> Option<u64> { self.pages.get(&(a / PAGE)).map(|p| p.1) }
    pub fn read(&self, a: u64, n: usize) -> Option<Vec<u8>> {
        let mut v = Vec::with_capacity(n.min(1 << 24));
        while v.len() < n {
            let at = a.wrapping_add(v.len() as u64);
            let o = (at % PAGE) as usize;
            let k = (n - v.len()).min(4096 - o);
            v.extend_from_slice(&self.pages.get(&(at / PAGE))?.0[o..o + k]);
        }
        Some(v)
    }
    pub fn r64(&self, a: u64) -> Option<u64> { Some(u64::from_le_bytes(self.read(a, 8)?.try_into().unwrap())) }
    pub fn r32(&self, a: u64) -> Option<u32> { Some(u32::from_le_bytes(self.read(a, 4)?.try_into().unwrap())) }
    pub fn write(&mut self, a: u64, v: &[u8]) -> bool {
        for (i, b) in v.iter().enumerate() {
            let a = a.wrapping_add(i as u64);
            match self.pages.get_mut(&(a / PAGE)) { Some(p) if p.1 & 2 != 0 => p.0[(a % PAGE) as usize] = *b, _ => return false }
        }
        true
    }
    /// Maps the image. Err: the kernel would refuse it or the process would fault.
    pub fn map(img: &Image) -> Result<Mem, String> {
        let mut m = Mem { pages: HashMap::default() };
        for (i, p) in img.ph.iter().enumerate().filter(|(_, p)| p.typ == PT_LOAD) {
            if p.memsz == 0 { continue; }
            let what = format!("PT_LOAD #{} [{:#x}, {:#x})", i, p.vaddr, p.vaddr.wrapping_add(p.memsz));
            if p.filesz > p.memsz { return Err(format!("{}: p_filesz {:#x} > p_memsz {:#x}", what, p.filesz, p.memsz)); }
            if p.off % PAGE != p.vaddr % PAGE { return Err(format!("{}: p_offset {:#x} and p_vaddr differ modulo the page size", what, p.off)); }
            if p.memsz > 256 << 20 || p.vaddr > 1 << 46 { return Err(format!("{}: absurd size or address", what)); }
            if p.off.checked_add(p.filesz).map(|e| e > img.raw.len() as u64).unwrap_or(true) { return Err(format!("{}: maps bytes beyond the end of the file", what)); }
            let first = p.vaddr / PAGE;
            let last = (p.vaddr + p.memsz - 1) / PAGE;
            let fend = p.vaddr + p.filesz;
            let filelast = if p.filesz == 0 { None } else { Some((fend - 1) / PAGE) };
            if p.memsz > p.filesz && fend % PAGE != 0 && p.filesz > 0 && p.flags & 2 == 0 { return Err(format!("{}: zero-filled tail in a read-only segment", what)); }
            for pg in first..=last {
                let mut d = Box::new([0u8; 4096]);
                if filelast.map(|l| pg <= l).unwrap_or(false) {
                    let fo = p.off - p.vaddr % PAGE + (pg - first) * PAGE;
                    let end = (fo + PAGE).min(img.raw.len() as u64);
                    if fo < end { d[..(end - fo) as usize].copy_from_slice(&img.raw[fo as usize..end as usize]); }
                    if p.memsz > p.filesz && pg * PAGE + PAGE > fend { d[(fend.max(pg * PAGE) - pg * PAGE) as usize..].fill(0); }
                }
                if m.pages.insert(pg, (d, p.flags)).is_some() { return Err(format!("{}: page {:#x} belongs to two segments", what, pg * PAGE)); }
            }
        }
        Ok(m)
    }
}

/// A library as loaded.
pub struct LoadedLib { pub name: String, pub base: u64, pub id: u64, pub o: std::sync::Arc<PObj> }

impl LoadedLib {
    pub fn addr(&self, s: usize) -> u64 { self.base + self.o.dynsyms[s].value }
    pub fn find(&self, name: &str) -> Option<usize> { self.o.dynsyms.iter().position(|s| s.shndx != 0 && s.bind != LOCAL && s.name == name) }
    pub fn byte(&self, a: u64) -> u8 { Lib::data_byte(self.id, a - self.base) }
}

pub fn lib_id(o: &PObj) -> u64 {
    let mut h = 99;
    for s in &o.dynsyms { h = crate::rng::mix(h ^ hash_bytes(s.name.as_bytes()) ^ s.value << 20 ^ s.size << 40); }
    h ^ o.soname.as_ref().map(|s| hash_bytes(s.as_bytes())).unwrap_or(5)
}

pub const DT_NAMES: [(u64, &str); 27] = [
    (0, "NULL"), (1, "NEEDED"), (2, "PLTRELSZ"), (3, "PLTGOT"), (4, "HASH"), (5, "STRTAB"), (6, "SYMTAB"), (7, "RELA"), (8, "RELASZ"), (9, "RELAENT"),
    (10, "STRSZ"), (11, "SYMENT"), (12, "INIT"), (13, "FINI"), (20, "PLTREL"), (21, "DEBUG"), (23, "JMPREL"), (24, "BIND_NOW"), (25, "INIT_ARRAY"),
    (26, "FINI_ARRAY"), (27, "INIT_ARRAYSZ"), (28, "FINI_ARRAYSZ"), (32, "PREINIT_ARRAY"), (33, "PREINIT_ARRAYSZ"), (0x6ffffef5, "GNU_HASH"), (0x6ffffff9, "RELACOUNT"), (14, "SONAME"),
];
pub fn dt_name(t: u64) -> String { DT_NAMES.iter().find(|d| d.0 == t).map(|d| d.1.to_string()).unwrap_or(format!("{:#x}", t)) }

/// The process after start-up by the dynamic loader.
pub struct Proc {
    pub mem: Mem,
    pub dynamic: Vec<(u64, u64)>,
    pub tags: BTreeMap<u64, u64>,
    pub needed: Vec<String>,
    pub nsyms: usize,
    pub syms: Vec<PSym>,
    pub rela: Vec<(u64, u32, usize, i64)>,
    pub jmprel: Vec<(u64, u32, usize, i64)>,
    pub libs: Vec<LoadedLib>,
    pub use_gnu: bool,
    pub lookups: u64,
    pub lazy_resolved: u64,
}

const GOT1: u64 = 0x7ffe_0000_1110;
const RESOLVER: u64 = 0x7ffe_0000_2220;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Which { Sysv, Gnu }

impl Proc {
    /// Err: (property suggestions, message)
    pub fn start(img: &Image, avail: &[(Vec<String>, std::sync::Arc<PObj>)], rng: &mut Rng) -> Result<Proc, String> {
        let mem = Mem::map(img)?;
        let d = img.ph.iter().find(|p| p.typ == PT_DYNAMIC).ok_or("no PT_DYNAMIC")?;
        let mut dynamic = vec![];
        let mut a = d.vaddr;
        loop {
            if a + 16 > d.vaddr + d.memsz { return Err("the dynamic array is not terminated by DT_NULL inside PT_DYNAMIC".into()); }
            let (t, v) = (mem.r64(a).ok_or("PT_DYNAMIC is not mapped")?, mem.r64(a + 8).ok_or("PT_DYNAMIC is not mapped")?);
            if t == 0 { break; }
            dynamic.push((t, v));
            a += 16;
        }
        let mut tags = BTreeMap::new();
        for (t, v) in &dynamic { if *t != 1 { tags.entry(*t).or_insert(*v); } }
        let mut p = Proc { mem, dynamic, tags, needed: vec![], nsyms: 0, syms: vec![], rela: vec![], jmprel: vec![], libs: vec![], use_gnu: rng.chance(50), lookups: 0, lazy_resolved: 0 };
        let strtab = p.tag(5)?;
        for (t, v) in p.dynamic.clone() {
            if t == 1 { let s = p.cstr(strtab.wrapping_add(v)).ok_or("DT_NEEDED name is not a mapped string")?; p.needed.push(s); }
        }
        // symbols: count from the tables
        let symtab = p.tag(6)?;
        let mut n = 0;
        if let Some(h) = p.tags.get(&4) { n = p.mem.r32(*h + 4).ok_or("DT_HASH is not mapped")? as usize; }
        if n == 0 || n > 100000 { n = img.o.dynsyms.len(); }
        n = n.min(img.o.dynsyms.len());
        for i in 0..n {
            let b = p.mem.read(symtab + 24 * i as u64, 24).ok_or("DT_SYMTAB is not mapped")?;
            p.syms.push(PSym {
                name: p.cstr(strtab.wrapping_add(g32(&b, 0).unwrap())).ok_or("a dynamic symbol's name is not a mapped string")?,
                bind: b[4] >> 4, typ: b[4] & 15, other: b[5], shndx: g16(&b, 6).unwrap(), value: g64(&b, 8).unwrap(), size: g64(&b, 16).unwrap(),
            });
        }
        p.nsyms = n;
        // libraries
        let mut base = 0x7f00_0000_0000;
        for nm in p.needed.clone().iter().skip(1) {
            let l = avail.iter().find(|l| l.0.contains(nm)).ok_or(format!("DT_NEEDED {} is not a library of this system", nm))?;
            base += 0x10_0000 + rng.below(16) * 0x1000;
            p.libs.push(LoadedLib { name: nm.clone(), base, id: lib_id(&l.1), o: l.1.clone() });
        }
        if let (Some(r), Some(sz)) = (p.tags.get(&7), p.tags.get(&8)) { p.rela = p.read_rela(*r, *sz)?; }
        if let (Some(r), Some(sz)) = (p.tags.get(&23), p.tags.get(&2)) { p.jmprel = p.read_rela(*r, *sz)?; }
        for (off, typ, sym, add) in p.rela.clone() { p.reloc(off, typ, sym, add)?; }
        if !p.jmprel.is_empty() || p.tags.contains_key(&3) {
            if let Some(g) = p.tags.get(&3).copied() {
                if !p.jmprel.is_empty() && !(p.mem.write(g + 8, &GOT1.to_le_bytes()) && p.mem.write(g + 16, &RESOLVER.to_le_bytes())) {
                    return Err("DT_PLTGOT does not point at writable memory with three reserved words".into());
                }
            } else if !p.jmprel.is_empty() { return Err("DT_JMPREL without DT_PLTGOT".into()); }
        }
        Ok(p)
    }
    pub fn tag(&self, t: u64) -> Result<u64, String> { self.tags.get(&t).copied().ok_or(format!("no DT_{}", dt_name(t))) }
    pub fn cstr(&self, a: u64) -> Option<String> {
        let mut v = vec![];
        loop {
            let b = self.mem.byte(a + v.len() as u64)?;
            if b == 0 { break; }
            v.push(b);
            if v.len() > 4096 { return None; }
        }
        Some(String::from_utf8_lossy(&v).into_owned())
    }
    fn read_rela(&self, a: u64, sz: u64) -> Result<Vec<(u64, u32, usize, i64)>, String> {
        if sz % 24 != 0 || sz > 1 << 20 { return Err(format!("relocation table of size {}", sz)); }
        (0..sz / 24).map(|i| {
            let q = a + 24 * i;
            let e = || format!("relocation table at {:#x} is not mapped", a);
            let info = self.mem.r64(q + 8).ok_or_else(e)?;
            Ok((self.mem.r64(q).ok_or_else(e)?, info as u32, (info >> 32) as usize, self.mem.r64(q + 16).ok_or_else(e)? as i64))
        }).collect()
    }
    /// Looks a name up in the executable through one of its hash tables, as the loader does.
    pub fn hash_find(&self, w: Which, name: &str) -> Result<Option<usize>, String> {
        let symtab = self.tag(6)?;
        let strtab = self.tag(5)?;
        let nm = |i: u32| -> Result<String, String> {
            if i as usize >= self.nsyms { return Err(format!("a hash chain leads to symbol {} of {}", i, self.nsyms)); }
            let o = self.mem.r32(symtab + 24 * i as u64).ok_or("symbol not mapped")?;
            self.cstr(strtab + o as u64).ok_or("symbol name not mapped".to_string())
        };
        match w {
            Which::Sysv => {
                let h = self.tag(4)?;
                let r = |o: u64| self.mem.r32(h + 4 * o).ok_or("DT_HASH is not mapped".to_string());
                let (nb, nc) = (r(0)? as u64, r(1)? as u64);
                if nb == 0 { return Ok(None); }
                let mut i = r(2 + sysv_hash(name.as_bytes()) as u64 % nb)?;
                let mut steps = 0;
                while i != 0 {
                    if i as u64 >= nc { return Err(format!("DT_HASH chain index {} out of {}", i, nc)); }
                    if nm(i)? == name { return Ok(Some(i as usize)); }
                    i = r(2 + nb + i as u64)?;
                    steps += 1;
                    if steps > nc { return Err("DT_HASH chain is a cycle".into()); }
                }
                Ok(None)
            }
            Which::Gnu => {
                let g = self.tag(0x6ffffef5)?;
                let r = |o: u64| self.mem.r32(g + o).ok_or("DT_GNU_HASH is not mapped".to_string());
                let (nb, off, bs, sh) = (r(0)? as u64, r(4)? as u64, r(8)? as u64, r(12)?);
                if nb == 0 { return Err("DT_GNU_HASH has no buckets".into()); }
                if bs == 0 || bs & (bs - 1) != 0 { return Err(format!("DT_GNU_HASH bloom filter of {} words", bs)); }
                let h = gnu_hash(name.as_bytes());
                let word = self.mem.r64(g + 16 + 8 * ((h as u64 / 64) & (bs - 1))).ok_or("DT_GNU_HASH is not mapped")?;
                if word >> (h % 64) & 1 == 0 || word >> ((h >> (sh & 31)) % 64) & 1 == 0 { return Ok(None); }
                let bk = 16 + 8 * bs;
                let mut i = r(bk + 4 * (h as u64 % nb))? as u64;
                if i == 0 { return Ok(None); }
                if i < off { return Err(format!("DT_GNU_HASH bucket holds symbol {} below symoffset {}", i, off)); }
                loop {
                    if i as usize >= self.nsyms { return Err("DT_GNU_HASH chain runs past the last symbol".into()); }
                    let c = r(bk + 4 * nb + 4 * (i - off))?;
                    if (c ^ h) >> 1 == 0 && nm(i as u32)? == name { return Ok(Some(i as usize)); }
                    if c & 1 == 1 { return Ok(None); }
                    i += 1;
                }
            }
        }
    }
    /// Global scope look-up. class: 1 = PLT (undefined entries with a value do not count), 2 = copy (skip the executable)
    pub fn lookup(&mut self, name: &str, class: u8) -> Result<Option<u64>, String> {
        self.lookups += 1;
        if class != 2 {
            let w = if self.tags.contains_key(&0x6ffffef5) && (self.use_gnu || !self.tags.contains_key(&4)) { Which::Gnu } else { Which::Sysv };
            if let Some(i) = self.hash_find(w, name)? {
                let s = &self.syms[i];
                if !((s.value == 0 && s.shndx != 0xfff1) || (class == 1 && s.shndx == 0)) && s.bind != LOCAL { return Ok(Some(s.value)); }
            }
        }
        for l in &self.libs { if let Some(i) = l.find(name) { return Ok(Some(l.addr(i))); } }
        Ok(None)
    }
    /// The module that defines a thread-local variable (1: the executable) and its offset in there.
    fn tls_find(&mut self, name: &str) -> Result<Option<(u64, u64)>, String> {
        self.lookups += 1;
        let w = if self.tags.contains_key(&0x6ffffef5) && (self.use_gnu || !self.tags.contains_key(&4)) { Which::Gnu } else { Which::Sysv };
        if let Some(i) = self.hash_find(w, name)? { let s = &self.syms[i]; if s.shndx != 0 && s.bind != LOCAL { return Ok(Some((1, s.value))); } }
        for (k, l) in self.libs.iter().enumerate() {
            if let Some(i) = l.find(name) {
                let s = &l.o.dynsyms[i];
                return if s.typ == STT_TLS { Ok(Some((k as u64 + 2, s.value))) } else { Err(format!("{} is no thread-local variable", name)) };
            }
        }
        Ok(None)
    }
    /// Where this loader places a library's thread-local block, relative to the thread pointer.
    pub fn tpoff(module: u64, off: u64) -> u64 { off.wrapping_sub(0x10_0000 * module) }
    fn symname(&self, i: usize) -> Result<(String, u8), String> {
        self.syms.get(i).map(|s| (s.name.clone(), s.bind)).ok_or(format!("a dynamic relocation names symbol {} of {}", i, self.nsyms))
    }
    fn reloc(&mut self, off: u64, typ: u32, sym: usize, add: i64) -> Result<(), String> {
        let bad = |w: &str| format!("dynamic relocation {} at {:#x}: {}", rname(typ), off, w);
        match typ {
            R_NONE => {}
            R_GLOB_DAT | R_64 => {
                let (n, b) = self.symname(sym)?;
                let v = match self.lookup(&n, 0)? { Some(v) => v, None if b == WEAK => 0, None => return Err(bad(&format!("symbol {} not found", n))) };
                let v = if typ == R_64 { v.wrapping_add(add as u64) } else { v };
                if !self.mem.write(off, &v.to_le_bytes()) { return Err(bad("target is not writable memory")); }
            }
            R_RELATIVE => { if !self.mem.write(off, &add.to_le_bytes()) { return Err(bad("target is not writable memory")); } }
            R_COPY => {
                let (n, _) = self.symname(sym)?;
                let size = self.syms[sym].size;
                let mut found = None;
                for l in &self.libs { if let Some(i) = l.find(&n) { found = Some((l.addr(i), l.o.dynsyms[i].size, l.id, l.base)); break; } }
                let (src, ssize, id, base) = found.ok_or(bad(&format!("symbol {} not found in any library", n)))?;
                let v: Vec<u8> = (0..size.min(ssize)).map(|k| Lib::data_byte(id, src + k - base)).collect();
                if !self.mem.write(off, &v) { return Err(bad("target is not writable memory")); }
            }
            R_JUMP_SLOT => {
                let (n, b) = self.symname(sym)?;
                let v = match self.lookup(&n, 1)? { Some(v) => v, None if b == WEAK => 0, None => return Err(bad(&format!("symbol {} not found", n))) };
                if !self.mem.write(off, &v.to_le_bytes()) { return Err(bad("target is not writable memory")); }
            }
            R_DTPMOD64 | R_DTPOFF64 | R_TPOFF64 => {
                let (n, _) = self.symname(sym)?;
                let (module, off_in) = self.tls_find(&n)?.ok_or_else(|| bad(&format!("symbol {} not found", n)))?;
                let v = match typ { R_DTPMOD64 => module, R_DTPOFF64 => off_in.wrapping_add(add as u64), _ => Self::tpoff(module, off_in).wrapping_add(add as u64) };
                if module == 1 && typ == R_TPOFF64 { return Err(bad("the executable's own variable needs no relocation")); }
                if !self.mem.write(off, &v.to_le_bytes()) { return Err(bad("target is not writable memory")); }
            }
            _ => return Err(bad("unexpected type")),
        }
        Ok(())
    }
    pub fn bind_now(&mut self) -> Result<(), String> {
        for (off, typ, sym, add) in self.jmprel.clone() {
            if typ != R_JUMP_SLOT { return Err(format!("DT_JMPREL holds a relocation of {}", rname(typ))); }
            self.reloc(off, typ, sym, add)?;
        }
        Ok(())
    }
    /// Follows control from an address until it reaches a library. Runs the lazy resolver if needed.
    pub fn follow(&mut self, start: u64) -> Result<u64, String> {
        let mut ip = start;
        let mut stack: Vec<u64> = vec![];
        for _ in 0..24 {
            if ip >= 0x7f00_0000_0000 && ip < RESOLVER - 0x10000 { return if stack.is_empty() { Ok(ip) } else { Err("stack not clean on arrival".into()) }; }
            if ip == RESOLVER {
                let (lm, idx) = (stack.pop(), stack.pop());
                if lm != Some(GOT1) { return Err(format!("the lazy resolver got link map {:x?} instead of GOT[1]", lm)); }
                let idx = idx.ok_or("the lazy resolver got no relocation index")? as usize;
                let (off, typ, sym, add) = *self.jmprel.get(idx).ok_or(format!("the lazy resolver got relocation index {} of {}", idx, self.jmprel.len()))?;
                if typ != R_JUMP_SLOT { return Err("the lazy resolver was asked for a relocation that is no JUMP_SLOT".into()); }
                self.reloc(off, typ, sym, add)?;
                self.lazy_resolved += 1;
                ip = self.mem.r64(off).unwrap();
                continue;
            }
            if self.mem.flags(ip).map(|f| f & 1 == 0).unwrap_or(true) { return Err(format!("control reaches {:#x}, which is not executable memory", ip)); }
            let b = self.mem.read(ip, 10).or_else(|| self.mem.read(ip, 6)).or_else(|| self.mem.read(ip, 5).map(|mut b| { b.push(0); b })).ok_or(format!("code at {:#x} not mapped", ip))?;
            let d = |o: usize| g32(&b, o).unwrap() as u32 as i32 as i64 as u64;
            match b[0] {
                0xf3 if b[1..4] == [0x0f, 0x1e, 0xfa] => ip += 4,
                0xf2 | 0x90 => ip += 1,
                0xff if b[1] == 0x25 => ip = self.mem.r64((ip + 6).wrapping_add(d(2))).ok_or(format!("jump through unmapped memory at {:#x}", ip))?,
                0xff if b[1] == 0x35 => { stack.push(self.mem.r64((ip + 6).wrapping_add(d(2))).ok_or(format!("push of unmapped memory at {:#x}", ip))?); ip += 6; }
                0x68 => { stack.push(d(1)); ip += 5; }
                0xe9 => ip = (ip + 5).wrapping_add(d(1)),
                _ => return Err(format!("code at {:#x} ({:02x?}) is not a linkage stub", ip, &b[..6])),
            }
        }
        Err("linkage stub does not terminate".into())
    }
}
