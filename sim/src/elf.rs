//! ELF formats: writers used by the workload generator, and an independent parser used by the
//! reference model. Nothing here is shared with dld.
#![allow(dead_code)]

pub const SHT_PROGBITS: u32 = 1;
pub const SHT_SYMTAB: u32 = 2;
pub const SHT_STRTAB: u32 = 3;
pub const SHT_RELA: u32 = 4;
pub const SHT_HASH: u32 = 5;
pub const SHT_DYNAMIC: u32 = 6;
pub const SHT_NOTE: u32 = 7;
pub const SHT_NOBITS: u32 = 8;
pub const SHT_GROUP: u32 = 17;
pub const SHT_REL: u32 = 9;
pub const SHT_DYNSYM: u32 = 11;
pub const SHT_INIT_ARRAY: u32 = 14;
pub const SHT_FINI_ARRAY: u32 = 15;
pub const SHT_PREINIT_ARRAY: u32 = 16;
pub const ARRAYS: [(u32, &str); 3] = [(SHT_INIT_ARRAY, ".init_array"), (SHT_FINI_ARRAY, ".fini_array"), (SHT_PREINIT_ARRAY, ".preinit_array")];
pub const SHT_GNU_HASH: u32 = 0x6ffffff6;
pub const W: u64 = 1;
pub const A: u64 = 2;
pub const X: u64 = 4;
pub const TLS: u64 = 0x400;
pub const LOCAL: u8 = 0;
pub const GLOBAL: u8 = 1;
pub const WEAK: u8 = 2;
pub const NOTYPE: u8 = 0;
pub const OBJECT: u8 = 1;
pub const FUNC: u8 = 2;
pub const IFUNC: u8 = 10;
pub const UNIQUE: u8 = 10;
pub const SECTION: u8 = 3;
pub const STT_TLS: u8 = 6;
pub const FILE: u8 = 4;

pub const R_NONE: u32 = 0;
pub const R_64: u32 = 1;
pub const R_PC32: u32 = 2;
pub const R_GOT32: u32 = 3;
pub const R_PLT32: u32 = 4;
pub const R_COPY: u32 = 5;
pub const R_GLOB_DAT: u32 = 6;
pub const R_JUMP_SLOT: u32 = 7;
pub const R_RELATIVE: u32 = 8;
pub const R_GOTPCREL: u32 = 9;
pub const R_DTPMOD64: u32 = 16;
pub const R_DTPOFF64: u32 = 17;
pub const R_TPOFF64: u32 = 18;
pub const R_TLSGD: u32 = 19;
pub const R_GOTTPOFF: u32 = 22;
pub const R_TPOFF32: u32 = 23;
pub const R_32: u32 = 10;
pub const R_32S: u32 = 11;
pub const R_16: u32 = 12;
pub const R_PC16: u32 = 13;
pub const R_8: u32 = 14;
pub const R_PC8: u32 = 15;
pub const R_PC64: u32 = 24;
pub const R_GOTPCRELX: u32 = 41;
pub const R_REX_GOTPCRELX: u32 = 42;

pub fn rname(t: u32) -> String {
    match t {
        0 => "NONE", 1 => "64", 2 => "PC32", 3 => "GOT32", 4 => "PLT32", 5 => "COPY", 6 => "GLOB_DAT", 7 => "JUMP_SLOT", 9 => "GOTPCREL",
        16 => "DTPMOD64", 17 => "DTPOFF64", 18 => "TPOFF64", 19 => "TLSGD", 22 => "GOTTPOFF", 23 => "TPOFF32", 8 => "RELATIVE",
        10 => "32", 11 => "32S", 24 => "PC64", 41 => "GOTPCRELX", 42 => "REX_GOTPCRELX",
        t => return format!("type {}", t),
    }.to_string()
}
pub fn rsize(t: u32) -> usize {
    match t { R_NONE => 0, R_64 | R_PC64 => 8, R_16 | R_PC16 => 2, R_8 | R_PC8 => 1, _ => 4 }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Loc { Undef, Abs, Common, Sec(usize), Index(u64), Group(usize) }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum RSym { Null, Sym(usize), SecSym(usize) }

#[derive(Clone, Debug, PartialEq)]
pub struct OSym { pub name: String, pub bind: u8, pub typ: u8, pub loc: Loc, pub value: u64, pub size: u64, pub other: u8 }
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct ORel { pub off: u64, pub typ: u32, pub sym: RSym, pub addend: i64 }
#[derive(Clone, Debug, PartialEq)]
pub struct OSec { pub name: String, pub typ: u32, pub flags: u64, pub align: u64, pub data: Vec<u8>, pub nobits: u64, pub rels: Vec<ORel>, pub entsize: u64 }
/// Sections that belong together: linked once for every signature when they are a COMDAT group.
#[derive(Clone, Debug, PartialEq)]
pub struct OGroup { pub sig: RSym, pub comdat: bool, pub secs: Vec<usize>, pub list_rela: bool }
/// An object file before it is written.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Obj {
    pub secs: Vec<OSec>,
    pub syms: Vec<OSym>,
    /// 0: each .rela after its section, 1: all at the end, 2: all at the end reversed, 3: all first
    pub rela_style: u8,
    pub secsyms_all: bool,
    pub file_sym: Option<String>,
    pub one_strtab: bool,
    pub tail: u64,
    /// what is wrong with the first relocation table: 1: no such symbol, 2: no addends, 3: no such section
    pub odd_table: u8,
    pub groups: Vec<OGroup>,
}

pub fn p16(b: &mut Vec<u8>, v: u64) { b.extend((v as u16).to_le_bytes()) }
pub fn p32(b: &mut Vec<u8>, v: u64) { b.extend((v as u32).to_le_bytes()) }
pub fn p64(b: &mut Vec<u8>, v: u64) { b.extend(v.to_le_bytes()) }
pub fn g16(b: &[u8], o: usize) -> Option<u64> { Some(u16::from_le_bytes(b.get(o..o.checked_add(2)?)?.try_into().ok()?) as u64) }
pub fn g32(b: &[u8], o: usize) -> Option<u64> { Some(u32::from_le_bytes(b.get(o..o.checked_add(4)?)?.try_into().ok()?) as u64) }
pub fn g64(b: &[u8], o: usize) -> Option<u64> { Some(u64::from_le_bytes(b.get(o..o.checked_add(8)?)?.try_into().ok()?)) }

struct Strs { b: Vec<u8> }
impl Strs {
    fn new() -> Strs { Strs { b: vec![0] } }
    fn add(&mut self, s: &str) -> u64 {
        if s.is_empty() { return 0; }
        let o = self.b.len() as u64;
        self.b.extend(s.as_bytes());
        self.b.push(0);
        o
    }
}

fn put_sym(b: &mut Vec<u8>, name: u64, info: u8, other: u8, shndx: u64, value: u64, size: u64) {
    p32(b, name);
    b.push(info);
    b.push(other);
    p16(b, shndx);
    p64(b, value);
    p64(b, size);
}

fn ehdr(typ: u64, phnum: u64, shoff: u64, shnum: u64, shstrndx: u64) -> Vec<u8> {
    let mut b = vec![0x7f, b'E', b'L', b'F', 2, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0];
    p16(&mut b, typ);
    p16(&mut b, 62);
    p32(&mut b, 1);
    p64(&mut b, 0);
    p64(&mut b, if phnum > 0 { 64 } else { 0 });
    p64(&mut b, shoff);
    p32(&mut b, 0);
    p16(&mut b, 64);
    p16(&mut b, 56);
    p16(&mut b, phnum);
    p16(&mut b, 64);
    p16(&mut b, shnum);
    p16(&mut b, shstrndx);
    b
}

struct RawSec { name: u64, typ: u32, flags: u64, addr: u64, link: u64, info: u64, align: u64, ent: u64, data: Vec<u8>, nobits: u64 }

fn assemble(typ: u64, mut secs: Vec<RawSec>, shstr_idx: usize, phdrs: Vec<u8>) -> Vec<u8> {
    let mut b = ehdr(typ, (phdrs.len() / 56) as u64, 0, secs.len() as u64, shstr_idx as u64);
    b.extend(phdrs);
    let mut offs = vec![];
    for s in &mut secs {
        let al = s.align.max(1).min(64);
        while b.len() as u64 % al != 0 { b.push(0); }
        offs.push(b.len() as u64);
        b.extend(&s.data);
    }
    while b.len() % 8 != 0 { b.push(0); }
    let shoff = b.len() as u64;
    b[40..48].copy_from_slice(&shoff.to_le_bytes());
    for (i, s) in secs.iter().enumerate() {
        p32(&mut b, s.name);
        p32(&mut b, s.typ as u64);
        p64(&mut b, s.flags);
        p64(&mut b, s.addr);
        p64(&mut b, if i == 0 { 0 } else { offs[i] });
        p64(&mut b, if s.typ == SHT_NOBITS { s.nobits } else { s.data.len() as u64 });
        p32(&mut b, s.link);
        p32(&mut b, s.info);
        p64(&mut b, s.align);
        p64(&mut b, s.ent);
    }
    b
}

impl Obj {
    pub fn write(&self) -> Vec<u8> {
        let mut shstr = Strs::new();
        let mut strs = Strs::new();
        // symbol order: null, file, section symbols, locals, globals
        let mut used_secsym = vec![self.secsyms_all; self.secs.len()];
        for s in &self.secs { for r in &s.rels { if let RSym::SecSym(i) = r.sym { used_secsym[i] = true; } } }
        for g in &self.groups { if let RSym::SecSym(i) = g.sig { used_secsym[i] = true; } }
        // section numbers
        #[derive(Clone, Copy)]
        enum It { S(usize), R(usize), G(usize) }
        let mut order: Vec<It> = (0..self.groups.len()).map(It::G).collect();
        let member = |i: usize| self.groups.iter().find(|g| g.secs.contains(&i));
        let with: Vec<usize> = (0..self.secs.len()).filter(|i| !self.secs[*i].rels.is_empty()).collect();
        if self.rela_style == 3 { order.extend(with.iter().map(|i| It::R(*i))); }
        for i in 0..self.secs.len() {
            order.push(It::S(i));
            if self.rela_style == 0 && !self.secs[i].rels.is_empty() { order.push(It::R(i)); }
        }
        if self.rela_style == 1 { order.extend(with.iter().map(|i| It::R(*i))); }
        if self.rela_style == 2 { order.extend(with.iter().rev().map(|i| It::R(*i))); }
        let mut num = vec![0u64; self.secs.len()];
        for (k, it) in order.iter().enumerate() { if let It::S(i) = it { num[*i] = k as u64 + 1; } }
        let symtab_idx = order.len() as u64 + 1;
        let strtab_idx = symtab_idx + 1;
        let shstr_idx = if self.one_strtab { strtab_idx } else { symtab_idx + 2 };
        let mut st = vec![];
        put_sym(&mut st, 0, 0, 0, 0, 0, 0);
        let mut n = 1u64;
        if let Some(f) = &self.file_sym { put_sym(&mut st, strs.add(f), FILE, 0, 0xfff1, 0, 0); n += 1; }
        let mut secsym = vec![0u64; self.secs.len()];
        for i in 0..self.secs.len() {
            if used_secsym[i] { put_sym(&mut st, 0, SECTION, 0, num[i], 0, 0); secsym[i] = n; n += 1; }
        }
        let mut symnum = vec![0u64; self.syms.len()];
        let mut locals = n;
        for pass in 0..2 {
            for (i, s) in self.syms.iter().enumerate() {
                if (s.bind == LOCAL) != (pass == 0) { continue; }
                let shndx = match s.loc { Loc::Undef => 0, Loc::Abs => 0xfff1, Loc::Common => 0xfff2, Loc::Sec(k) => num[k], Loc::Index(x) => x, Loc::Group(g) => g as u64 + 1 };
                put_sym(&mut st, strs.add(&s.name), s.bind << 4 | s.typ, s.other, shndx, s.value, s.size);
                symnum[i] = n;
                n += 1;
            }
            if pass == 0 { locals = n; }
        }
        let mut raw = vec![RawSec { name: 0, typ: 0, flags: 0, addr: 0, link: 0, info: 0, align: 0, ent: 0, data: vec![], nobits: 0 }];
        let mut names: Vec<u64> = vec![];
        {
            let tgt = if self.one_strtab { &mut strs } else { &mut shstr };
            for it in &order {
                names.push(match it { It::S(i) => tgt.add(&self.secs[*i].name), It::R(i) => tgt.add(&format!(".rela{}", self.secs[*i].name)), It::G(_) => tgt.add(".group") });
            }
            for s in [".symtab", ".strtab", ".shstrtab"] { names.push(tgt.add(s)); }
        }
        for (k, it) in order.iter().enumerate() {
            match it {
                It::G(g) => {
                    let g = &self.groups[*g];
                    let mut d = vec![];
                    p32(&mut d, g.comdat as u64);
                    for (k, it) in order.iter().enumerate() {
                        if match it { It::S(i) => g.secs.contains(i), It::R(i) => g.list_rela && g.secs.contains(i), It::G(_) => false } { p32(&mut d, k as u64 + 1); }
                    }
                    let info = match g.sig { RSym::Null => 0, RSym::Sym(k) => symnum[k], RSym::SecSym(k) => secsym[k] };
                    raw.push(RawSec { name: names[k], typ: SHT_GROUP, flags: 0, addr: 0, link: symtab_idx, info, align: 4, ent: 4, data: d, nobits: 0 });
                }
                It::S(i) => {
                    let s = &self.secs[*i];
                    raw.push(RawSec { name: names[k], typ: s.typ, flags: s.flags | if member(*i).is_some() { 0x200 } else { 0 }, addr: 0, link: 0, info: 0, align: s.align, ent: s.entsize, data: s.data.clone(), nobits: s.nobits });
                }
                It::R(i) => {
                    let mut d = vec![];
                    let odd = if with.iter().find(|i| self.secs[**i].rels.iter().any(|r| r.typ != R_NONE)) == Some(i) { self.odd_table } else { 0 };
                    for (x, r) in self.secs[*i].rels.iter().enumerate() {
                        p64(&mut d, r.off);
                        let mut y = match r.sym { RSym::Null => 0, RSym::Sym(k) => symnum[k], RSym::SecSym(k) => secsym[k] };
                        if odd == 1 && Some(x) == self.secs[*i].rels.iter().position(|r| r.typ != R_NONE) { y = n + self.tail % 3 * 1000; }
                        p64(&mut d, y << 32 | r.typ as u64);
                        if odd != 2 { p64(&mut d, r.addend as u64); }
                    }
                    let (typ, ent) = if odd == 2 { (SHT_REL, 16) } else { (SHT_RELA, 24) };
                    let info = if odd == 3 { order.len() as u64 + 20 + self.tail } else { num[*i] };
                    raw.push(RawSec { name: names[k], typ, flags: 0x40 | if member(*i).map_or(false, |g| g.list_rela) { 0x200 } else { 0 }, addr: 0, link: symtab_idx, info, align: 8, ent, data: d, nobits: 0 });
                }
            }
        }
        let k = order.len();
        raw.push(RawSec { name: names[k], typ: SHT_SYMTAB, flags: 0, addr: 0, link: strtab_idx, info: locals, align: 8, ent: 24, data: st, nobits: 0 });
        raw.push(RawSec { name: names[k + 1], typ: SHT_STRTAB, flags: 0, addr: 0, link: 0, info: 0, align: 1, ent: 0, data: strs.b, nobits: 0 });
        if !self.one_strtab {
            raw.push(RawSec { name: names[k + 2], typ: SHT_STRTAB, flags: 0, addr: 0, link: 0, info: 0, align: 1, ent: 0, data: shstr.b, nobits: 0 });
        }
        assemble(1, raw, shstr_idx as usize, vec![])
    }
}

/* ---------- shared libraries ---------- */
#[derive(Clone, Debug, PartialEq)]
pub struct LSym { pub name: String, pub bind: u8, pub typ: u8, pub undef: bool, pub off: u64, pub size: u64 }
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Lib {
    pub soname: Option<String>,
    pub needed: Vec<String>,
    pub syms: Vec<LSym>,
    /// Names of definitions that have protected visibility.
    pub protected: Vec<String>,
    /// 1: sysv hash, 2: gnu hash, 3: both
    pub hash: u8,
}
pub const LIB_TEXT: u64 = 0x40000;
pub const LIB_DATA: u64 = 0x44000;
pub const LIB_DATA_SIZE: u64 = 0x4000;

pub fn sysv_hash(n: &[u8]) -> u32 {
    let mut h: u32 = 0;
    for c in n {
        h = (h << 4).wrapping_add(*c as u32);
        let g = h & 0xf0000000;
        h ^= g >> 24;
        h &= !g;
    }
    h
}
pub fn gnu_hash(n: &[u8]) -> u32 {
    n.iter().fold(5381u32, |h, c| h.wrapping_mul(33).wrapping_add(*c as u32))
}

impl Lib {
    /// The byte a library's data section holds at an offset (so that copies can be recognised).
    pub fn data_byte(id: u64, off: u64) -> u8 { (crate::rng::mix(id ^ off << 8) >> 13) as u8 }
    pub fn write(&self) -> Vec<u8> {
        let mut strs = Strs::new();
        let mut syms: Vec<&LSym> = self.syms.iter().collect();
        let nb = (syms.iter().filter(|s| !s.undef).count() / 3 + 1) as u32;
        syms.sort_by_key(|s| if s.undef { (0, 0, 0) } else { (1, gnu_hash(s.name.as_bytes()) % nb, gnu_hash(s.name.as_bytes())) });
        let mut ds = vec![];
        put_sym(&mut ds, 0, 0, 0, 0, 0, 0);
        for s in &syms {
            let (shndx, v) = if s.undef { (0, 0) } else if s.typ == STT_TLS { (7, s.off) } else if s.typ == OBJECT { (7, LIB_DATA + s.off) } else { (6, LIB_TEXT + s.off) };
            let other = if !s.undef && self.protected.contains(&s.name) { 3 } else { 0 };
            put_sym(&mut ds, strs.add(&s.name), s.bind << 4 | s.typ, other, shndx, v, s.size);
        }
        let n = syms.len() + 1;
        let mut hs = vec![];
        {
            let nbk = (n / 2 + 1) as u32;
            let mut bk = vec![0u32; nbk as usize];
            let mut ch = vec![0u32; n];
            for (i, s) in syms.iter().enumerate() {
                let h = (sysv_hash(s.name.as_bytes()) % nbk) as usize;
                ch[i + 1] = bk[h];
                bk[h] = i as u32 + 1;
            }
            p32(&mut hs, nbk as u64);
            p32(&mut hs, n as u64);
            for v in bk.iter().chain(&ch) { p32(&mut hs, *v as u64); }
        }
        let mut gh = vec![];
        {
            let first = syms.iter().position(|s| !s.undef).unwrap_or(syms.len());
            let defs = &syms[first..];
            let mut bloom = vec![0u64; 2];
            let mut bk = vec![0u32; nb as usize];
            let mut ch = vec![];
            for (i, s) in defs.iter().enumerate() {
                let h = gnu_hash(s.name.as_bytes());
                bloom[(h as usize / 64) % 2] |= 1 << (h % 64) | 1 << ((h >> 6) % 64);
                let b = (h % nb) as usize;
                if bk[b] == 0 { bk[b] = (first + i + 1) as u32; }
                let last = i + 1 == defs.len() || gnu_hash(defs[i + 1].name.as_bytes()) % nb != h % nb;
                ch.push(if last { h | 1 } else { h & !1 });
            }
            p32(&mut gh, nb as u64);
            p32(&mut gh, first as u64 + 1);
            p32(&mut gh, 2);
            p32(&mut gh, 6);
            for v in &bloom { p64(&mut gh, *v); }
            for v in bk.iter().chain(&ch) { p32(&mut gh, *v as u64); }
        }
        let soname = self.soname.as_ref().map(|s| strs.add(s));
        let needed: Vec<u64> = self.needed.iter().map(|s| strs.add(s)).collect();
        // layout: one segment, file offset == address
        let mut shstr = Strs::new();
        let mut body = vec![0u8; 64 + 2 * 56];
        let place = |d: &[u8], body: &mut Vec<u8>| { while body.len() % 8 != 0 { body.push(0) } let o = body.len() as u64; body.extend(d); o };
        let o_dynsym = place(&ds, &mut body);
        let o_str = place(&strs.b, &mut body);
        let o_hash = place(&hs, &mut body);
        let o_gh = place(&gh, &mut body);
        let mut dy = vec![];
        let d = |t: u64, v: u64, dy: &mut Vec<u8>| { p64(dy, t); p64(dy, v) };
        for x in &needed { d(1, *x, &mut dy); }
        if let Some(s) = soname { d(14, s, &mut dy); }
        if self.hash & 1 != 0 { d(4, o_hash, &mut dy); }
        if self.hash & 2 != 0 { d(0x6ffffef5, o_gh, &mut dy); }
        d(5, o_str, &mut dy);
        d(6, o_dynsym, &mut dy);
        d(10, strs.b.len() as u64, &mut dy);
        d(11, 24, &mut dy);
        d(0, 0, &mut dy);
        let o_dyn = place(&dy, &mut body);
        assert!(body.len() as u64 <= LIB_TEXT, "library tables too large");
        // text and data live past the tables in memory and are not needed in the file
        let sec = [
            (".dynsym", SHT_DYNSYM, A, o_dynsym, ds.len() as u64, 2u64, 1u64, 8u64, 24u64),
            (".dynstr", SHT_STRTAB, A, o_str, strs.b.len() as u64, 0, 0, 1, 0),
            (".hash", if self.hash & 1 != 0 { SHT_HASH } else { SHT_PROGBITS }, A, o_hash, hs.len() as u64, 1, 0, 8, 4),
            (".gnu.hash", if self.hash & 2 != 0 { SHT_GNU_HASH } else { SHT_PROGBITS }, A, o_gh, gh.len() as u64, 1, 0, 8, 0),
            (".dynamic", SHT_DYNAMIC, A | W, o_dyn, dy.len() as u64, 2, 0, 8, 16),
            (".text", SHT_NOBITS, A | X, LIB_TEXT, 0x4000, 0, 0, 16, 0),
            (".data", SHT_NOBITS, A | W, LIB_DATA, LIB_DATA_SIZE, 0, 0, 32, 0),
        ];
        let names: Vec<u64> = sec.iter().map(|s| shstr.add(s.0)).collect();
        let n_shstr = shstr.add(".shstrtab");
        let mut sh = vec![0u8; 64];
        for (i, s) in sec.iter().enumerate() {
            p32(&mut sh, names[i]);
            p32(&mut sh, s.1 as u64);
            p64(&mut sh, s.2);
            p64(&mut sh, s.3);
            p64(&mut sh, s.3);
            p64(&mut sh, s.4);
            p32(&mut sh, s.5);
            p32(&mut sh, s.6);
            p64(&mut sh, s.7);
            p64(&mut sh, s.8);
        }
        let o_shstr = place(&shstr.b, &mut body);
        p32(&mut sh, n_shstr);
        p32(&mut sh, SHT_STRTAB as u64);
        p64(&mut sh, 0);
        p64(&mut sh, 0);
        p64(&mut sh, o_shstr);
        p64(&mut sh, shstr.b.len() as u64);
        p64(&mut sh, 0);
        p64(&mut sh, 1);
        p64(&mut sh, 0);
        let o_sh = place(&sh, &mut body);
        let total = body.len() as u64;
        let e = ehdr(3, 2, o_sh, (sh.len() / 64) as u64, (sh.len() / 64 - 1) as u64);
        body[..64].copy_from_slice(&e);
        let mut ph = vec![];
        for (t, fl, o, sz, msz) in [(1u64, 7u64, 0u64, total, LIB_DATA + LIB_DATA_SIZE), (2, 6, o_dyn, dy.len() as u64, dy.len() as u64)] {
            p32(&mut ph, t);
            p32(&mut ph, fl);
            p64(&mut ph, o);
            p64(&mut ph, o);
            p64(&mut ph, o);
            p64(&mut ph, sz);
            p64(&mut ph, msz);
            p64(&mut ph, if t == 1 { 0x1000 } else { 8 });
        }
        body[64..64 + 112].copy_from_slice(&ph);
        body
    }
}

/* ---------- archives ---------- */
#[derive(Clone, Debug, PartialEq)]
pub struct Member { pub name: String, pub data: Vec<u8>, pub globals: Vec<String> }

pub fn write_archive(ms: &[Member]) -> Vec<u8> {
    let mut long = vec![];
    let mut names = vec![];
    for m in ms {
        if m.name.len() > 15 {
            names.push(format!("/{}", long.len()));
            long.extend(m.name.as_bytes());
            long.extend(b"/\n");
        } else {
            names.push(format!("{}/", m.name));
        }
    }
    let hdr = |name: &str, size: usize| {
        let s = format!("{:<16}{:<12}{:<6}{:<6}{:<8}{:<10}`\n", name, "0", "0", "0", "644", size);
        assert_eq!(s.len(), 60);
        s.into_bytes()
    };
    let nsyms: usize = ms.iter().map(|m| m.globals.len()).sum();
    let mut idx_len = 4 + 4 * nsyms + ms.iter().flat_map(|m| &m.globals).map(|g| g.len() + 1).sum::<usize>();
    let pad_idx = idx_len % 2;
    idx_len += pad_idx;
    let mut off = 8 + 60 + idx_len;
    if !long.is_empty() { off += 60 + long.len() + long.len() % 2; }
    let mut offs = vec![];
    for m in ms { offs.push(off); off += 60 + m.data.len() + m.data.len() % 2; }
    let mut b = b"!<arch>\n".to_vec();
    b.extend(hdr("/", idx_len));
    b.extend((nsyms as u32).to_be_bytes());
    for (m, o) in ms.iter().zip(&offs) { for _ in &m.globals { b.extend((*o as u32).to_be_bytes()); } }
    for m in ms { for g in &m.globals { b.extend(g.as_bytes()); b.push(0); } }
    if pad_idx == 1 { b.push(0); }
    if !long.is_empty() {
        b.extend(hdr("//", long.len()));
        b.extend(&long);
        if long.len() % 2 == 1 { b.push(b'\n'); }
    }
    for (m, n) in ms.iter().zip(&names) {
        b.extend(hdr(n, m.data.len()));
        b.extend(&m.data);
        if m.data.len() % 2 == 1 { b.push(b'\n'); }
    }
    b
}

pub struct PArchive { pub index: Vec<(String, usize)>, pub members: Vec<(String, usize, usize)> }

pub fn parse_archive(b: &[u8]) -> Option<PArchive> {
    if b.get(..8)? != b"!<arch>\n" { return None; }
    let mut o = 8;
    let mut index = vec![];
    let mut members = vec![];
    let mut long: Vec<u8> = vec![];
    let mut raw_index: Vec<(String, usize)> = vec![];
    while o < b.len() {
        let h = b.get(o..o + 60)?;
        let name = std::str::from_utf8(&h[..16]).ok()?.trim_end().to_string();
        let size: usize = std::str::from_utf8(&h[48..58]).ok()?.trim().parse().ok()?;
        let body = b.get(o + 60..o + 60 + size)?;
        if name == "/" {
            let n = u32::from_be_bytes(body.get(..4)?.try_into().ok()?) as usize;
            let mut p = 4 + 4 * n;
            for i in 0..n {
                let off = u32::from_be_bytes(body.get(4 + 4 * i..8 + 4 * i)?.try_into().ok()?) as usize;
                let e = p + body.get(p..)?.iter().position(|c| *c == 0)?;
                raw_index.push((String::from_utf8_lossy(&body[p..e]).into(), off));
                p = e + 1;
            }
        } else if name == "//" {
            long = body.to_vec();
        } else {
            let real = if let Some(n) = name.strip_prefix('/') {
                let n: usize = n.parse().ok()?;
                let e = n + long.get(n..)?.iter().position(|c| *c == b'/')?;
                String::from_utf8_lossy(&long[n..e]).into_owned()
            } else { name.trim_end_matches('/').to_string() };
            members.push((real, o, size));
        }
        o += 60 + size + size % 2;
    }
    for (s, off) in raw_index { index.push((s, members.iter().position(|m| m.1 == off)?)); }
    Some(PArchive { index, members: members.into_iter().map(|(n, o, s)| (n, o + 60, s)).collect() })
}

/* ---------- parser ---------- */
#[derive(Clone, Debug)]
pub struct PSec { pub idx: usize, pub name: String, pub typ: u32, pub flags: u64, pub align: u64, pub size: u64, pub data: Vec<u8>, pub addr: u64, pub off: u64, pub link: u64, pub info: u64, pub ent: u64, pub prio: u64 }
#[derive(Clone, Debug)]
pub struct PSym { pub name: String, pub bind: u8, pub typ: u8, pub other: u8, pub shndx: u64, pub value: u64, pub size: u64 }
#[derive(Clone, Debug)]
pub struct PRel { pub sec: usize, pub off: u64, pub typ: u32, pub sym: usize, pub addend: i64 }
#[derive(Clone, Debug)]
pub struct PObj { pub etype: u64, pub secs: Vec<PSec>, pub syms: Vec<PSym>, pub rels: Vec<PRel>, pub dynsyms: Vec<PSym>, pub soname: Option<String>, pub locals: u64, pub dynlocals: u64 }

pub fn cstr(b: &[u8], o: usize) -> Option<String> {
    let t = b.get(o..)?;
    let n = t.iter().position(|c| *c == 0)?;
    Some(String::from_utf8_lossy(&t[..n]).into_owned())
}

pub fn parse_syms(d: &[u8], strs: &[u8]) -> Option<Vec<PSym>> {
    let mut v = vec![];
    for c in d.chunks_exact(24) {
        v.push(PSym {
            name: cstr(strs, g32(c, 0)? as usize)?,
            bind: c[4] >> 4, typ: c[4] & 15, other: c[5], shndx: g16(c, 6)?, value: g64(c, 8)?, size: g64(c, 16)?,
        });
    }
    Some(v)
}

/// Parses any well-formed ELF64 LE file with section headers.
pub fn parse(b: &[u8]) -> Option<PObj> {
    if b.get(..6)? != [0x7f, b'E', b'L', b'F', 2, 1] { return None; }
    let etype = g16(b, 16)?;
    let shoff = g64(b, 40)? as usize;
    let n = g16(b, 60)? as usize;
    let shstr = g16(b, 62)? as usize;
    let mut secs = vec![];
    for i in 0..n {
        let o = shoff.checked_add(64 * i)?;
        let (typ, off, size) = (g32(b, o + 4)? as u32, g64(b, o + 24)?, g64(b, o + 32)?);
        let data = if typ == SHT_NOBITS || typ == 0 { vec![] } else { b.get(off as usize..(off.checked_add(size)?) as usize)?.to_vec() };
        secs.push(PSec { idx: i, name: String::new(), typ, flags: g64(b, o + 8)?, addr: g64(b, o + 16)?, off, size, link: g32(b, o + 40)?, info: g32(b, o + 44)?, align: g64(b, o + 48)?, ent: g64(b, o + 56)?, data, prio: u64::MAX });
    }
    let names = secs.get(shstr)?.data.clone();
    for i in 0..n { let nm = g32(b, shoff + 64 * i)? as usize; secs[i].name = if i == 0 { String::new() } else { cstr(&names, nm)? }; }
    // .init_array.N goes to .init_array, ordered by N; whatever has the type goes there, too
    if etype == 1 {
        for s in &mut secs {
            for (t, n) in ARRAYS {
                let named = s.name.strip_prefix(n).filter(|r| r.is_empty() || r.starts_with('.')).map(|r| r.to_string());
                if s.typ != t && !(s.typ == SHT_PROGBITS && named.is_some()) { continue; }
                if let Some(Ok(k)) = named.filter(|r| !r.is_empty()).map(|r| r[1..].parse::<u32>()) { s.prio = k as u64; }
                s.name = n.to_string();
                s.typ = t;
                break;
            }
        }
    }
    let mut syms = vec![];
    let mut dynsyms = vec![];
    let (mut locals, mut dynlocals) = (0, 0);
    let mut soname = None;
    for s in &secs {
        if s.typ == SHT_SYMTAB { syms = parse_syms(&s.data, &secs.get(s.link as usize)?.data)?; locals = s.info; }
        if s.typ == SHT_DYNSYM { dynsyms = parse_syms(&s.data, &secs.get(s.link as usize)?.data)?; dynlocals = s.info; }
        if s.typ == SHT_DYNAMIC {
            for c in s.data.chunks_exact(16) {
                if g64(c, 0)? == 0 { break; }
                if g64(c, 0)? == 14 { soname = Some(cstr(&secs.get(s.link as usize)?.data, g64(c, 8)? as usize)?); }
            }
        }
    }
    let mut rels = vec![];
    for s in &secs {
        if s.typ == SHT_RELA && etype == 1 {
            for c in s.data.chunks_exact(24) {
                let i = g64(c, 8)?;
                rels.push(PRel { sec: s.info as usize, off: g64(c, 0)?, typ: i as u32, sym: (i >> 32) as usize, addend: g64(c, 16)? as i64 });
            }
        }
    }
    Some(PObj { etype, secs, syms, rels, dynsyms, soname, locals, dynlocals })
}
