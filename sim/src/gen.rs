//! Seeded workload generator: builds whole link jobs (objects, archives, libraries, scripts, command
//! lines). Features are switched on and off per run (swarm testing); a profile per property makes the
//! features that property depends on frequent.
use crate::elf::*;
use crate::rng::Rng;
use crate::world::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

#[derive(Clone, Debug, Default)]
pub struct Knobs {
    pub objs: usize, pub archives: usize, pub libs: usize,
    pub locals: bool, pub same_local_names: bool, pub local_like_global: bool,
    pub weak_defs: bool, pub weak_refs: bool, pub abs: bool,
    pub nobits: bool, pub big_align: bool, pub page_sizes: bool, pub many_secs: bool, pub nonalloc: bool, pub split_secs: bool,
    pub arrays: bool, pub frags: bool, pub specials: bool,
    pub imports: usize, pub data_imports: usize, pub collide: bool, pub ptr_imports: bool,
    pub lib_dups: bool, pub lib_override: bool, pub lib_undef: bool, pub soname: bool, pub as_needed: bool, pub script: bool,
    pub decoys: bool, pub refs: usize, pub odd_rela: bool, pub chain: usize, pub skipped: usize, pub arch_dups: bool,
    pub overflow: bool, pub unsupported: bool, pub fail: u64, pub common: bool, pub dup_locals: bool,
    pub prio_arrays: bool, pub tiny: bool, pub nulls: bool,
    pub odd_flags: bool, pub odd_names: u64, pub vis: bool, pub crowd: bool, pub bulk: bool, pub twice: bool, pub lib_links: bool, pub aliases: bool, pub tls: bool,
    pub ifunc: bool, pub hordes: bool, pub mixed: bool, pub unique: bool, pub strange: bool, pub reserved: bool, pub groups: bool, pub packed: bool,
}

pub fn knobs(rng: &mut Rng, prop: &str) -> Knobs {
    let b = |r: &mut Rng, p: u64| r.chance(p);
    let mut k = Knobs {
        objs: rng.range(1, 4), archives: if rng.chance(50) { rng.range(1, 2) } else { 0 }, libs: if rng.chance(60) { rng.range(1, 3) } else { 0 },
        locals: b(rng, 60), same_local_names: b(rng, 40), local_like_global: b(rng, 30),
        weak_defs: b(rng, 30), weak_refs: b(rng, 40), abs: b(rng, 25),
        nobits: b(rng, 50), big_align: b(rng, 25), page_sizes: b(rng, 15), many_secs: b(rng, 30), nonalloc: b(rng, 40), split_secs: b(rng, 20),
        arrays: b(rng, 35), frags: b(rng, 20), specials: b(rng, 25),
        imports: if rng.chance(60) { rng.range(1, 6) } else { 0 }, data_imports: if rng.chance(40) { rng.range(1, 3) } else { 0 }, collide: b(rng, 20), ptr_imports: b(rng, 30),
        lib_dups: b(rng, 20), lib_override: b(rng, 15), lib_undef: b(rng, 30), soname: b(rng, 50), as_needed: b(rng, 40), script: b(rng, 25),
        decoys: b(rng, 20), refs: rng.range(2, 10), odd_rela: b(rng, 40), chain: rng.range(1, 3), skipped: rng.range(0, 2), arch_dups: b(rng, 25),
        overflow: false, unsupported: false, fail: 0, common: b(rng, 15), dup_locals: b(rng, 10), prio_arrays: false, tiny: b(rng, 15), nulls: b(rng, 10),
        odd_flags: b(rng, 15), odd_names: if rng.chance(15) { rng.range(1, 5) as u64 } else { 0 }, vis: b(rng, 25), crowd: b(rng, 2), bulk: b(rng, 3), twice: b(rng, 20), lib_links: b(rng, 25), aliases: b(rng, 25), tls: b(rng, 20),
        ifunc: false, hordes: false, unique: b(rng, if prop == "C07" || prop == "C09" || prop == "C16" { 20 } else { 6 }), reserved: b(rng, if prop == "C12" || prop == "C13" { 2 } else { 0 }), strange: b(rng, if prop == "C07" || prop == "C12" { 2 } else { 0 }),
        groups: b(rng, match prop { "C07" | "C09" | "C12" => 40, "C08" | "C10" | "C14" | "C19" | "C20" | "C24" => 20, _ => 8 }), packed: b(rng, match prop { "C12" | "C14" => 2, "C21" => 4, _ => 0 }), mixed: rng.chance(if prop == "C12" || prop == "C13" { 30 } else { 8 }),
    };
    match prop {
        "C07" => { k.objs = rng.range(2, 6); k.weak_defs = b(rng, 90); k.weak_refs = b(rng, 70); k.refs = rng.range(4, 14); k.common = b(rng, 25); k.tls |= b(rng, 15); }
        "C08" => { k.objs = rng.range(2, 6); k.locals = true; k.same_local_names = b(rng, 85); k.local_like_global = b(rng, 75); k.dup_locals = b(rng, 30); k.refs = rng.range(4, 14); }
        "C09" => { k.objs = rng.range(1, 5); k.fail = 65; k.weak_refs = b(rng, 60); k.weak_defs = b(rng, 60); k.lib_undef = b(rng, 60); k.libs = rng.range(0, 3); }
        "C10" => { k.archives = rng.range(1, 4); k.chain = rng.range(1, 6); k.skipped = rng.range(1, 4); k.arch_dups = b(rng, 70); }
        "C11" => { k.archives = rng.range(0, 2); k.libs = rng.range(0, 3); k.decoys = true; k.script = b(rng, 60); k.fail = 30; }
        "C12" => { k.objs = rng.range(2, 7); k.big_align = b(rng, 60); k.nobits = b(rng, 75); k.many_secs = b(rng, 60); k.split_secs = b(rng, 50); k.page_sizes = b(rng, 30); k.nonalloc = b(rng, 60); k.tiny = b(rng, 40); }
        "C13" => { k.hordes = rng.below(700) == 0; k.tls = b(rng, 30); k.big_align = b(rng, 50); k.nobits = b(rng, 60); k.page_sizes = b(rng, 60); k.many_secs = b(rng, 70); }
        "C14" => { k.refs = rng.range(8, 30); k.nonalloc = b(rng, 60); k.odd_rela = b(rng, 70); k.abs = b(rng, 50); k.overflow = b(rng, 25); k.unsupported = b(rng, 10); k.ifunc = b(rng, 6); k.nulls = b(rng, 30); k.tls = b(rng, 45); }
        "C15" => { k.libs = rng.range(1, 3); k.imports = if b(rng, 30) { rng.range(12, 48) } else { rng.range(1, 12) }; k.ptr_imports = b(rng, 60); k.refs = rng.range(6, 24); }
        "C16" => { k.libs = rng.range(1, 3); k.data_imports = rng.range(1, 8); k.refs = rng.range(6, 20); k.nobits = b(rng, 70); k.aliases = b(rng, 60); }
        "C17" => { k.libs = rng.range(1, 3); k.imports = if b(rng, 50) { rng.range(16, 90) } else { rng.range(0, 16) }; k.data_imports = rng.range(0, 8); k.collide = b(rng, 70); }
        "C18" => { k.libs = rng.range(1, 5); k.soname = b(rng, 70); k.as_needed = b(rng, 75); k.script = b(rng, 50); k.arrays = b(rng, 50); k.frags = b(rng, 40); k.imports = rng.range(0, 6); }
        "C19" => { k.objs = rng.range(1, 6); k.arrays = true; k.frags = b(rng, 60); k.specials = b(rng, 75); k.archives = rng.range(0, 2); k.prio_arrays = b(rng, 20); }
        "C24" => { k.tls = true; k.refs = rng.range(6, 24); k.objs = rng.range(1, 5); k.nobits = b(rng, 50); k.big_align = b(rng, 40); k.same_local_names = b(rng, 40); k.locals = b(rng, 60); if b(rng, 60) { k.libs = rng.range(1, 3); } k.archives = if b(rng, 25) { 1 } else { 0 }; k.page_sizes = b(rng, 25); k.common = b(rng, 35); }
        "C20" => { k.tls = b(rng, 30); k.locals = true; k.same_local_names = b(rng, 60); k.abs = b(rng, 50); k.weak_defs = b(rng, 50); k.weak_refs = b(rng, 50); k.dup_locals = b(rng, 30); }
        _ => {}
    }
    match prop {
        "C10" => { if b(rng, 12) { k.chain = rng.range(8, 24); k.archives = rng.range(1, 3); k.skipped = rng.range(6, 14); } }
        "C12" | "C13" => { k.odd_flags = b(rng, 45); k.bulk = b(rng, 8); k.crowd = b(rng, 5); }
        "C15" | "C17" => { if b(rng, 4) { k.imports = rng.range(230, 420); k.libs = rng.range(1, 2); k.objs = 1; } k.odd_names = if b(rng, 40) { rng.range(1, 5) as u64 } else { 0 }; }
        "C20" => { k.odd_names = if b(rng, 50) { rng.range(1, 5) as u64 } else { 0 }; k.crowd = b(rng, 5); k.odd_flags = b(rng, 30); }
        "C18" => { k.twice = b(rng, 40); k.lib_links = b(rng, 50); }
        "C11" => { k.twice = b(rng, 40); k.lib_links = b(rng, 60); }
        _ => {}
    }
    if k.crowd { k.many_secs = true; k.split_secs = true; k.locals = true; k.refs = k.refs.min(6); if k.imports < 100 { k.objs = rng.range(2, 14); } }
    if (k.imports > 0 || k.data_imports > 0) && k.libs == 0 { k.libs = 1; }
    k
}

/// A symbol's name in this world: plain, or with characters and lengths that real names have too.
fn named(k: &Knobs, stem: String) -> String {
    match k.odd_names {
        1 => format!("gr\u{f6}\u{df}e_{}", stem),
        2 => format!("{}_\u{540d}\u{524d}\u{1f980}", stem),
        3 => format!("_ZNSt3mapI{}{}EEvT_", "NSt7__cxx1112basic_stringIcE".repeat(12), stem),
        4 => format!("{}$x.isra.0", stem),
        5 => format!("\u{e9}{}", stem.chars().last().unwrap_or('0')) + &stem,
        _ => stem,
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Kind { Func, Data, Tls }

/// One object file under construction.
struct Unit { obj: Obj, idx: BTreeMap<String, usize>, marked: Vec<usize>, witness: Vec<usize>, tls: Vec<usize> }

impl Unit {
    fn new(rng: &mut Rng, k: &Knobs) -> Unit {
        let mut obj = Obj::default();
        if k.odd_rela { obj.rela_style = rng.below(4) as u8; }
        obj.secsyms_all = rng.chance(40);
        obj.one_strtab = k.odd_rela && rng.chance(30);
        if rng.chance(50) { obj.file_sym = Some(rng.pick(&["main.c", "a.c", "util.c", "crt1.c"]).to_string()); }
        Unit { obj, idx: BTreeMap::new(), marked: vec![], witness: vec![], tls: vec![] }
    }
    fn sec(&mut self, name: &str, typ: u32, flags: u64, align: u64) -> usize {
        let entsize = if ARRAYS.iter().any(|a| a.0 == typ) { 8 } else { 0 };
        self.obj.secs.push(OSec { name: name.into(), typ, flags, align, data: vec![], nobits: 0, rels: vec![], entsize });
        self.obj.secs.len() - 1
    }
    fn mark(&mut self, rng: &mut Rng, s: usize) {
        let n = rng.range(16, 40);
        let d = rng.bytes(n);
        self.obj.secs[s].data.extend(d);
        self.marked.push(s);
    }
    /// The symbol index for a global name, added as undefined when it is not there.
    fn global(&mut self, name: &str, bind: u8, typ: u8) -> usize {
        if let Some(i) = self.idx.get(name) {
            if self.obj.syms[*i].loc == Loc::Undef && bind == GLOBAL { self.obj.syms[*i].bind = GLOBAL; }
            return *i;
        }
        self.obj.syms.push(OSym { name: name.into(), bind, typ, loc: Loc::Undef, value: 0, size: 0, other: 0 });
        self.idx.insert(name.into(), self.obj.syms.len() - 1);
        self.obj.syms.len() - 1
    }
    fn define(&mut self, name: &str, bind: u8, typ: u8, loc: Loc, value: u64, size: u64) -> usize {
        if let Some(i) = self.idx.get(name) {
            let s = &mut self.obj.syms[*i];
            s.bind = bind; s.typ = typ; s.loc = loc; s.value = value; s.size = size;
            return *i;
        }
        self.obj.syms.push(OSym { name: name.into(), bind, typ, loc, value, size, other: 0 });
        if bind != LOCAL { self.idx.insert(name.into(), self.obj.syms.len() - 1); }
        self.obj.syms.len() - 1
    }
    fn len(&self, s: usize) -> u64 { let x = &self.obj.secs[s]; if x.typ == SHT_NOBITS { x.nobits } else { x.data.len() as u64 } }
    fn spot(&self, rng: &mut Rng, s: usize) -> u64 { let n = self.len(s); if rng.chance(20) { 0 } else { rng.below(n.max(1)) } }
    /// Appends a relocated field of the given type to a section.
    fn put(&mut self, rng: &mut Rng, s: usize, typ: u32, sym: RSym, addend: i64, form: u64) {
        let pre = rng.below(6) as usize;
        let mut d = rng.bytes(pre);
        match typ {
            // a call, a jump, or another instruction that reads the slot
            R_GOTPCRELX => if form >> 8 & 7 == 0 { d.extend([[0x8b, 0x85, 0x3b, 0x03][(form >> 12 & 3) as usize], 5 | (form >> 4) as u8 & 0x38]) } else { d.extend([0xff, if form & 1 == 0 { 0x15 } else { 0x25 }]) },
            R_REX_GOTPCRELX | R_GOTPCREL | R_GOTTPOFF => {
                let reg = (form >> 4) as u8 & 15;
                let op = if form >> 8 & 7 == 0 { [0x8b, 0x85, 0x3b, 0x03][(form >> 12 & 3) as usize] } else { 0x8b };
                d.extend([if reg & 8 != 0 { 0x4c } else { 0x48 }, op, 5 | (reg & 7) << 3]);
            }
            R_TLSGD => d.extend([0x66, 0x48, 0x8d, 0x3d]),
            R_PLT32 => d.push(if form & 1 == 0 { 0xe8 } else { 0xe9 }),
            _ => {}
        }
        let off = self.obj.secs[s].data.len() as u64 + d.len() as u64;
        let n = rsize(typ);
        d.extend(if rng.chance(50) { vec![0; n] } else { rng.bytes(n) });
        let post = if rng.chance(30) { 0 } else { rng.below(5) as usize };
        d.extend(rng.bytes(post));
        self.obj.secs[s].data.extend(d);
        self.obj.secs[s].rels.push(ORel { off, typ, sym, addend });
    }
}

fn align(rng: &mut Rng, k: &Knobs) -> u64 {
    if k.big_align && rng.chance(30) { *rng.pick(&[32, 64, 128, 256, 4096, 4096, 8192, 65536]) } else { *rng.pick(&[1, 1, 2, 4, 8, 16, 16]) }
}

/// The sections of one unit.
fn skeleton(rng: &mut Rng, k: &Knobs, u: &mut Unit, text_needed: bool) {
    let mut names: Vec<(&str, u32, u64)> = vec![];
    if text_needed || rng.chance(80) { names.push((".text", SHT_PROGBITS, A | X)); }
    if rng.chance(60) { names.push((".data", SHT_PROGBITS, A | W)); }
    if rng.chance(45) { names.push((".rodata", SHT_PROGBITS, A)); }
    if k.many_secs {
        for n in [(".text.hot", SHT_PROGBITS, A | X), (".rodata.str", SHT_PROGBITS, A | 0x30), (".note.sim", SHT_NOTE, A), (".data.rel", SHT_PROGBITS, A | W), ("custom_set", SHT_PROGBITS, A), (".eh_frame", SHT_PROGBITS, A), (".rwx", SHT_PROGBITS, A | W | X)] {
            if rng.chance(30) { names.push(n); }
        }
    }
    if k.nobits { for n in [(".bss", SHT_NOBITS, A | W), (".bss.page", SHT_NOBITS, A | W), (".tbuf", SHT_NOBITS, A | W)] { if rng.chance(50) { names.push(n); } } }
    if k.nonalloc { for n in [(".debug_info", SHT_PROGBITS, 0), (".comment", SHT_PROGBITS, 0x30), (".debug_str", SHT_PROGBITS, 0x30), (".llvm_addrsig", 0x6fff_4c03, 0x8000_0000)] { if rng.chance(50) { names.push(n); } } }
    if k.tls { for n in [(".tdata", SHT_PROGBITS, A | W | TLS), (".tbss", SHT_NOBITS, A | W | TLS), (".tdata.one", SHT_PROGBITS, A | W | TLS), (".tbss.one", SHT_NOBITS, A | W | TLS)] { if rng.chance(if n.0.len() < 7 { 45 } else { 10 }) { names.push(n); } } }
    if rng.chance(30) { names.push((".note.GNU-stack", SHT_PROGBITS, 0)); }
    if k.odd_flags {
        // group, retained, large, link-ordered and compressed-looking sections, and an unwind table by its own type
        for n in [(".text.grp", SHT_PROGBITS, A | X | 0x200), (".data.grp", SHT_PROGBITS, A | W | 0x200), (".rodata.grp", SHT_PROGBITS, A | 0x200), (".bss.grp", SHT_NOBITS, A | W | 0x200), (".text.keep", SHT_PROGBITS, A | X | 0x20_0000), (".ldata", SHT_PROGBITS, A | W | 0x1000_0000), (".rodata.cst", SHT_PROGBITS, A | 0x10), (".eh_frame.u", 0x7000_0001, A), (".order", SHT_PROGBITS, A | 0x80)] {
            if rng.chance(25) { names.push(n); }
        }
    }
    if k.mixed { for n in [".mix", ".mix.b"] { for _ in 0..rng.range(0, 2) { let (t, f) = *rng.pick(&[(SHT_PROGBITS, A), (SHT_PROGBITS, A | W), (SHT_NOBITS, A | W), (SHT_NOBITS, A), (SHT_PROGBITS, A | X), (SHT_PROGBITS, A | W), (SHT_NOBITS, A | W)]); names.push((n, t, f)); } } }
    let crowd: Vec<String> = if k.crowd { let c = rng.range(5, 60); (0..c).map(|i| format!("{}.fn_{}", *rng.pick(&[".text", ".data", ".rodata"]), i * 7 % 90)).collect() } else { vec![] };
    for n in &crowd { names.push((n, SHT_PROGBITS, if n.starts_with(".text") { A | X } else if n.starts_with(".data") { A | W } else { A })); }
    if k.split_secs && rng.chance(60) { let n = *rng.pick(&[(".text", SHT_PROGBITS, A | X), (".data", SHT_PROGBITS, A | W), (".rodata", SHT_PROGBITS, A)]); names.push(n); }
    if rng.chance(40) { rng.shuffle(&mut names); }
    for (n, t, f) in names {
        let mut f = f;
        // merge/string flags are part of a name's kind here: never mixed under one name
        if n == ".rodata.str" { f = A | 0x30; }
        let al = if n == ".note.GNU-stack" { 1 } else { align(rng, k) };
        let s = u.sec(n, t, f, al);
        if n == ".rodata.str" || n == ".comment" || n == ".debug_str" { u.obj.secs[s].entsize = 1; }
        if n == ".note.GNU-stack" { continue; }
        if f & TLS != 0 {
            let l = if k.tiny && rng.chance(40) { rng.range(1, 9) } else { rng.range(16, 70) };
            if t == SHT_NOBITS { u.obj.secs[s].nobits = l as u64; } else { u.obj.secs[s].data = rng.bytes(l); }
            u.tls.push(s);
            continue;
        }
        if rng.chance(8) && n != ".text" { if t == SHT_NOBITS { continue; } if rng.chance(50) { continue; } }
        if t == SHT_NOBITS {
            u.obj.secs[s].nobits = if k.bulk && rng.chance(30) { *rng.pick(&[65536u64, 70001, 1 << 20, (1 << 22) + 5]) } else if k.page_sizes && rng.chance(40) { rng.range(4000, 9000) as u64 } else { rng.range(1, 200) as u64 };
            u.witness.push(s);
        } else if k.tiny && rng.chance(35) && n != ".text" && f & A != 0 {
            let l = rng.range(1, 9);
            u.obj.secs[s].data = rng.bytes(l);
            u.witness.push(s);
        } else {
            if rng.chance(20) { let l = rng.range(1, 12); let d = rng.bytes(l); u.obj.secs[s].data.extend(d); }
            u.mark(rng, s);
            if k.bulk && !k.crowd && rng.chance(20) {
                let want = *rng.pick(&[65536usize, 65537, 70003, 131072 + 9]);
                let d = rng.bytes(want);
                u.obj.secs[s].data.extend(d);
            }
            if k.page_sizes && rng.chance(20) {
                let want = *rng.pick(&[4096usize, 4095, 4097, 8192, 3900, 4080]);
                let have = u.obj.secs[s].data.len();
                let d = rng.bytes(want.saturating_sub(have));
                u.obj.secs[s].data.extend(d);
            }
        }
    }
}

#[derive(Clone)]
struct Def { name: String, kind: Kind, weak: bool, abs: Option<u64>, common: bool }

fn add_defs(rng: &mut Rng, k: &Knobs, u: &mut Unit, defs: &[Def]) {
    for d in defs {
        if let Some(v) = d.abs { u.define(&d.name, if d.weak { WEAK } else { GLOBAL }, NOTYPE, Loc::Abs, v, 0); continue; }
        if d.common { let al = *rng.pick(&[1u64, 4, 8, 16, 32]); let sz = rng.range(1, 64) as u64; u.define(&d.name, GLOBAL, if d.kind == Kind::Tls { STT_TLS } else { OBJECT }, Loc::Common, al, sz); continue; }
        if d.kind == Kind::Tls {
            if u.tls.is_empty() { let s = u.sec(".tdata", SHT_PROGBITS, A | W | TLS, 8); let b = rng.bytes(24); u.obj.secs[s].data = b; u.tls.push(s); }
            let s = *rng.pick(&u.tls);
            let v = u.spot(rng, s);
            let size = rng.below(9);
            u.define(&d.name, if d.weak { WEAK } else { GLOBAL }, STT_TLS, Loc::Sec(s), v, size);
            continue;
        }
        let cands: Vec<usize> = (0..u.obj.secs.len()).filter(|s| {
            let x = &u.obj.secs[*s];
            x.flags & A != 0 && (u.marked.contains(s) || u.witness.contains(s)) && if d.kind == Kind::Func { x.flags & X != 0 } else { true }
        }).collect();
        let s = match cands.is_empty() {
            false => *rng.pick(&cands),
            true => { let s = u.sec(if d.kind == Kind::Func { ".text" } else { ".data" }, SHT_PROGBITS, A | if d.kind == Kind::Func { X } else { W }, 4); u.mark(rng, s); s }
        };
        let v = u.spot(rng, s);
        let size = rng.below(32);
        let typ = if rng.chance(15) { NOTYPE } else if d.kind == Kind::Func { FUNC } else { OBJECT };
        let typ = if k.ifunc && typ == FUNC && rng.chance(30) { IFUNC } else { typ };
        let unique = (k.unique || d.name == "twice" && rng.chance(30)) && !d.weak && d.kind == Kind::Data && rng.chance(50);
        let typ = if unique { OBJECT } else { typ };
        let y = u.define(&d.name, if d.weak { WEAK } else if unique { UNIQUE } else { GLOBAL }, typ, Loc::Sec(s), v, size);
        if k.vis && rng.chance(30) { u.obj.syms[y].other = *rng.pick(&[1, 2, 2, 3]); }
    }
    if k.reserved && rng.chance(60) {
        // a name that the linker uses for a section of its own
        let n = *rng.pick(&RESERVED);
        let (t, f) = *rng.pick(&[(SHT_PROGBITS, A), (SHT_PROGBITS, A | W), (SHT_PROGBITS, A | X), (SHT_NOBITS, A | W)]);
        let al = align(rng, k);
        let s = u.sec(n, t, f, al);
        if t == SHT_NOBITS { u.obj.secs[s].nobits = rng.range(1, 64) as u64; } else { u.mark(rng, s); }
    }
    if k.strange && rng.chance(40) {
        let x = *rng.pick(&[0xff00u64, 0xff02, 0xff1f, 0xff20, 0xfff0, 0xfff3, 0xfffe, 0xffff, 0x8000, 60000]);
        let bind = *rng.pick(&[GLOBAL, GLOBAL, WEAK, LOCAL]);
        let al = *rng.pick(&[1u64, 8, 32]);
        u.define(&format!("elsewhere_{:x}", rng.below(256)), bind, OBJECT, Loc::Index(x), al, 8);
    }
}

pub const RESERVED: [&str; 15] = [".strtab", ".dynstr", ".got", ".got.plt", ".plt", ".symtab", ".dynsym", ".dynamic", ".rela.dyn", ".rela.plt", ".hash", ".gnu.hash", ".copyrel", ".shstrtab", ".got"];

const LOCALS: [&str; 10] = ["tmp", "buf", "helper", "count.0", "L1", "state", "init", "table", "cleanup", "x"];

fn add_locals(rng: &mut Rng, k: &Knobs, u: &mut Unit, uid: usize, globals: &[String]) {
    if !k.locals { return; }
    let nl = if k.crowd && rng.chance(30) { rng.range(40, 300) } else { rng.range(1, 5) };
    for i in 0..nl {
        let name = if i == 0 && k.odd_names > 0 { named(k, format!("loc{}", uid)) } else if k.local_like_global && rng.chance(40) && !globals.is_empty() { rng.pick(globals).clone() }
            else if k.same_local_names && rng.chance(70) { rng.pick(&LOCALS).to_string() } else { format!("loc{}_{}", uid, i) };
        if name == "_start" && rng.chance(60) { continue; }
        if !k.dup_locals && u.obj.syms.iter().any(|s| s.name == name) { continue; }
        let c: Vec<usize> = u.marked.iter().chain(&u.witness).copied().collect();
        let typ = *rng.pick(&[NOTYPE, OBJECT, FUNC]);
        if k.abs && rng.chance(15) { let v = rng.below(1 << 20); u.define(&name, LOCAL, NOTYPE, Loc::Abs, v, 0); continue; }
        if c.is_empty() { continue; }
        let s = *rng.pick(&c);
        let v = u.spot(rng, s);
        let sz = rng.below(16);
        u.define(&name, LOCAL, typ, Loc::Sec(s), v, sz);
    }
}

/// What units may refer to.
#[derive(Clone, Default)]
struct Pool {
    defined: Vec<(String, Kind)>,
    abs: Vec<(String, u64)>,
    fns: Vec<String>,
    datas: Vec<String>,
    weak_none: Vec<String>,
    specials: Vec<String>,
    tls: Vec<String>,
    tls_imports: Vec<String>,
}

fn code_secs(u: &Unit) -> Vec<usize> { u.marked.iter().copied().filter(|s| u.obj.secs[*s].flags & X != 0).collect() }

fn ref_to(rng: &mut Rng, k: &Knobs, u: &mut Unit, name: &str, what: u8, kind: &Kind, weak: bool) {
    // what: 0 defined, 1 imported function, 2 imported data, 3 unresolved weak, 4 special, 5 absolute
    let code = code_secs(u);
    let alloc: Vec<usize> = u.marked.iter().copied().filter(|s| u.obj.secs[*s].flags & A != 0).collect();
    if alloc.is_empty() { return; }
    let sym = u.global(name, if weak { WEAK } else { GLOBAL }, if rng.chance(30) { if what == 2 { OBJECT } else if what == 1 { FUNC } else { NOTYPE } } else { NOTYPE });
    let sym = RSym::Sym(sym);
    let mut opts: Vec<u32> = vec![];
    let c = !code.is_empty();
    match what {
        0 => { opts.extend([R_64, R_32, R_32S, R_PC32]); if c { opts.push(R_REX_GOTPCRELX); if k.odd_rela { opts.extend([R_GOTPCREL, R_GOT32]); } if *kind == Kind::Func { opts.extend([R_PLT32, R_PLT32, R_GOTPCRELX]); } } }
        1 => { if c { opts.extend([R_PLT32, R_PLT32, R_GOTPCRELX, R_REX_GOTPCRELX]); if k.odd_rela { opts.extend([R_GOTPCREL, R_GOT32]); } } if k.ptr_imports || !c { opts.extend([R_64, R_64, R_32, R_32S, R_PC32]); } }
        2 => { opts.extend([R_64, R_32S, R_PC32]); if c { opts.push(R_REX_GOTPCRELX); if k.odd_rela { opts.push(R_GOTPCREL); } } }
        3 => { opts.extend([R_64, R_32]); if c { opts.extend([R_PLT32, R_REX_GOTPCRELX]); } }
        4 => { opts.extend([R_64, R_PC32, R_32S]); }
        _ => { opts.extend([R_64, R_32]); }
    }
    let typ = *rng.pick(&opts);
    let insn = matches!(typ, R_PLT32 | R_GOTPCRELX | R_REX_GOTPCRELX | R_GOTPCREL);
    let s = if insn { *rng.pick(&code) } else { *rng.pick(&alloc) };
    let addend = if typ == R_GOT32 { 0 } else if typ == R_GOTPCREL { *rng.pick(&[-4, -4, -5, -8]) } else if insn || (typ == R_PC32 && rng.chance(60)) { -4 } else if what == 0 || what == 2 || what == 4 { *rng.pick(&[0, 0, 0, 8, 4, -4, 100]) } else { 0 };
    let addend = if what == 1 { if insn || typ == R_PC32 { -4 } else { 0 } } else { addend };
    let form = rng.u64();
    u.put(rng, s, typ, sym, addend, form);
}

fn local_refs(rng: &mut Rng, k: &Knobs, u: &mut Unit, n: usize) {
    for _ in 0..n {
        let locals: Vec<usize> = (0..u.obj.syms.len()).filter(|i| u.obj.syms[*i].bind == LOCAL && u.obj.syms[*i].typ != STT_TLS).collect();
        let secs: Vec<usize> = u.marked.iter().chain(&u.witness).copied().collect();
        if u.marked.is_empty() || secs.is_empty() { return; }
        let s = *rng.pick(&u.marked);
        let alloc = u.obj.secs[s].flags & A != 0;
        let code = u.obj.secs[s].flags & X != 0;
        let use_sec = locals.is_empty() || rng.chance(40);
        let (sym, tgt_alloc, abs) = if use_sec { let t = *rng.pick(&secs); (RSym::SecSym(t), u.obj.secs[t].flags & A != 0, false) } else {
            let i = *rng.pick(&locals);
            match u.obj.syms[i].loc { Loc::Sec(t) => (RSym::Sym(i), u.obj.secs[t].flags & A != 0, false), _ => (RSym::Sym(i), true, true) }
        };
        let mut opts = vec![R_64, R_32];
        if alloc && tgt_alloc && !abs { opts.extend([R_32S, R_PC32]); if code && !use_sec { opts.extend([R_REX_GOTPCRELX, R_PLT32, R_GOTPCRELX]); if k.odd_rela { opts.push(R_GOTPCREL); } } }
        if alloc && !tgt_alloc { continue; }
        let typ = *rng.pick(&opts);
        let insn = matches!(typ, R_PLT32 | R_GOTPCRELX | R_REX_GOTPCRELX | R_GOTPCREL);
        let add = if insn { -4 } else { *rng.pick(&[0i64, 0, 1, 8, 24, -4]) };
        // keep non-allocated targets (which start at 0) from going negative in 32-bit fields
        let add = if !tgt_alloc || abs { add.abs() } else { add };
        let f = rng.u64();
        u.put(rng, s, typ, sym, add, f);
    }
}

/// A section that as --compress-debug-sections has compressed.
fn packed(rng: &mut Rng, u: &mut Unit) {
    let name = *rng.pick(&[".debug_info", ".debug_line", ".debug_str", ".debug_loclists"]);
    let s = u.sec(name, SHT_PROGBITS, 0x800 | if name == ".debug_str" { 0x30 } else { 0 }, 8);
    let n = rng.range(16, 200);
    let body = rng.bytes(n);
    let sec = &mut u.obj.secs[s];
    for v in [*rng.pick(&[1u64, 2]), rng.range(n, 4 * n) as u64, 1] { sec.data.extend(v.to_le_bytes()); }
    sec.data.extend(body);
    let syms: Vec<usize> = (0..u.obj.syms.len()).filter(|i| u.obj.syms[*i].loc != Loc::Undef && u.obj.syms[*i].typ != STT_TLS).collect();
    for _ in 0..rng.range(0, 3) {
        if syms.is_empty() { break; }
        // at a place of the section as it was
        let off = rng.below(3 * n as u64);
        let sym = RSym::Sym(*rng.pick(&syms));
        u.obj.secs[s].rels.push(ORel { off, typ: *rng.pick(&[R_32, R_64]), sym, addend: rng.below(64) as i64 });
    }
}

fn finish(rng: &mut Rng, k: &Knobs, u: &mut Unit) {
    // witnesses for sections that hold nothing recognisable
    let w = u.witness.clone();
    let alloc: Vec<usize> = u.marked.iter().copied().filter(|s| u.obj.secs[*s].flags & A != 0).collect();
    for s in w {
        let host = if alloc.is_empty() { let h = u.sec(".data", SHT_PROGBITS, A | W, 8); u.mark(rng, h); h } else { *rng.pick(&alloc) };
        let add = *rng.pick(&[0i64, 0, 3, 16]);
        u.put(rng, host, R_64, RSym::SecSym(s), add, 0);
    }
    // a section of the thread-local block is located by a variable of its own
    for s in u.tls.clone() {
        let v = u.spot(rng, s);
        let name = format!("tls_of_{}", s);
        let y = u.define(&name, LOCAL, STT_TLS, Loc::Sec(s), v, 1);
        let host = match u.marked.iter().copied().find(|m| u.obj.secs[*m].flags & A != 0) { Some(h) => h, None => { let h = u.sec(".data", SHT_PROGBITS, A | W, 8); u.mark(rng, h); h } };
        let add = *rng.pick(&[0i64, 0, 4]);
        u.put(rng, host, R_TPOFF32, RSym::Sym(y), add, 0);
        // a pointer as the initial value
        if u.obj.secs[s].typ != SHT_NOBITS && rng.chance(30) { let add = rng.below(16) as i64; u.put(rng, s, R_64, RSym::SecSym(host), add, 0); }
    }
    if k.nulls && rng.chance(60) && !u.marked.is_empty() {
        let s = *rng.pick(&u.marked);
        let a = rng.below(1 << 20) as i64;
        if rng.chance(40) { u.put(rng, s, R_NONE, RSym::Null, 0, 0); } else { let t = *rng.pick(&[R_64, R_32]); u.put(rng, s, t, RSym::Null, a, 0); }
    }
    // sometimes a second marker at the end
    for s in u.marked.clone() { if rng.chance(20) { let n = rng.range(1, 30); let d = rng.bytes(n); u.obj.secs[s].data.extend(d); } }
    // relocation order is free
    if k.odd_rela { for s in &mut u.obj.secs { if rng.chance(40) { rng.shuffle(&mut s.rels); } } }
    for s in &mut u.obj.secs { s.data.shrink_to_fit(); }
}

/// Sections that several objects bring, of which only the first ones are to be linked.
struct Group { id: usize, sig: u8, comdat: bool, names: Vec<(String, Kind)>, objs: Vec<usize>, alike: bool, seed: u64, strong: bool }

fn add_group(rng: &mut Rng, k: &Knobs, u: &mut Unit, g: &Group, pool: &Pool, direct: bool) {
    u.obj.odd_table = 0;
    // the copies are the same, or tell which one was linked
    let mut own = Rng(if g.alike && direct && g.comdat { g.seed } else { rng.u64() });
    let r = &mut own;
    let name = |base: &str, q: usize, r: &mut Rng| if q == 0 || r.chance(70) { format!("{}._Zgroup{}_{}", base, g.id, q) } else { base.to_string() };
    let mut secs: Vec<usize> = vec![];
    let mut markers: Vec<usize> = vec![];
    let code = { let n = name(".text", 0, r); let al = *r.pick(&[1, 2, 16]); u.sec(&n, SHT_PROGBITS, A | X, al) };
    let fill = |u: &mut Unit, r: &mut Rng, s: usize| { let n = r.range(16, 40); let d = r.bytes(n); u.obj.secs[s].data.extend(d); };
    fill(u, r, code);
    secs.push(code);
    markers.push(code);
    let mut locals: Vec<RSym> = vec![RSym::SecSym(code)];
    for (q, (n, kind)) in g.names.iter().enumerate() {
        // a definition of the unit's own
        if u.idx.get(n).map_or(false, |i| u.obj.syms[*i].loc != Loc::Undef) { continue; }
        let bind = if !g.comdat { WEAK } else if g.strong { GLOBAL } else if *kind == Kind::Data && r.chance(30) { UNIQUE } else { WEAK };
        let (s, typ) = match kind {
            Kind::Func => (code, FUNC),
            Kind::Tls => {
                let nm = name(".tdata", q + 1, r);
                let s = u.sec(&nm, SHT_PROGBITS, A | W | TLS, *r.pick(&[1, 8, 16]));
                fill(u, r, s);
                let v = r.below(u.len(s));
                let y = u.define(&format!("tls_in_group{}_{}", g.id, q), LOCAL, STT_TLS, Loc::Sec(s), v, 1);
                u.put(r, code, R_TPOFF32, RSym::Sym(y), 0, 0);
                (s, STT_TLS)
            }
            Kind::Data => {
                let (base, typ, flags) = *r.pick(&[(".data", SHT_PROGBITS, A | W), (".rodata", SHT_PROGBITS, A), (".bss", SHT_NOBITS, A | W), (".gdata", SHT_PROGBITS, A | W)]);
                let nm = name(base, q + 1, r);
                let s = u.sec(&nm, typ, flags, *r.pick(&[1, 8, 16, 64]));
                if typ == SHT_NOBITS { u.obj.secs[s].nobits = r.range(1, 64) as u64; let add = *r.pick(&[0i64, 0, 5]); u.put(r, code, R_64, RSym::SecSym(s), add, 0); } else { fill(u, r, s); markers.push(s); }
                locals.push(RSym::SecSym(s));
                (s, OBJECT)
            }
        };
        if s != code { secs.push(s); }
        let v = u.spot(r, s);
        let size = r.below(24);
        u.define(n, bind, typ, Loc::Sec(s), v, size);
    }
    if r.chance(40) {
        let v = u.spot(r, code);
        let nm = if k.same_local_names { LOCALS[r.below(10) as usize].to_string() } else { format!("in_group{}_{:x}", g.id, r.below(1 << 20)) };
        if k.dup_locals || !u.obj.syms.iter().any(|s| s.name == nm) { locals.push(RSym::Sym(u.define(&nm, LOCAL, FUNC, Loc::Sec(code), v, 4))); }
    }
    if r.chance(20) { let s = u.sec(".debug_types", SHT_PROGBITS, 0, 1); fill(u, r, s); secs.push(s); markers.push(s); }
    // within the group, and from there to other places
    for _ in 0..r.range(0, 3) {
        let s = *r.pick(&markers);
        let alloc = u.obj.secs[s].flags & A != 0;
        let typ = if alloc { *r.pick(&[R_64, R_32, R_PC32]) } else { *r.pick(&[R_64, R_32]) };
        let sym = if r.chance(50) || pool.defined.is_empty() { *r.pick(&locals) } else { let n = r.pick(&pool.defined).0.clone(); RSym::Sym(u.global(&n, GLOBAL, NOTYPE)) };
        let add = r.below(16) as i64;
        u.put(r, s, typ, sym, add, 0);
    }
    if !pool.fns.is_empty() && r.chance(30) { let n = r.pick(&pool.fns).clone(); let y = u.global(&n, GLOBAL, NOTYPE); let f = r.u64(); u.put(r, code, R_PLT32, RSym::Sym(y), -4, f); }
    // from the rest of the object into the group
    let hosts: Vec<usize> = u.marked.clone();
    for _ in 0..rng.range(0, 3) {
        if hosts.is_empty() { break; }
        let s = *rng.pick(&hosts);
        let alloc = u.obj.secs[s].flags & A != 0;
        if u.obj.secs[s].typ == SHT_NOBITS { continue; }
        let sym = *rng.pick(&locals);
        let typ = if alloc { *rng.pick(&[R_64, R_32, R_PC32]) } else { *rng.pick(&[R_64, R_32]) };
        let add = rng.below(16) as i64;
        u.put(rng, s, typ, sym, add, 0);
    }
    let i = u.obj.groups.len();
    let sig = match g.sig {
        0 => RSym::Sym(u.idx[&g.names[0].0]),
        1 => { let n = format!("_ZN{}C5Ev", g.id); RSym::Sym(u.define(&n, LOCAL, NOTYPE, Loc::Group(i), 0, 0)) }
        _ => RSym::SecSym(code),
    };
    u.obj.groups.push(OGroup { sig, comdat: g.comdat, secs, list_rela: rng.chance(80) });
}

fn arrays(rng: &mut Rng, k: &Knobs, u: &mut Unit, pool: &Pool) {
    if k.arrays {
        for (t, n) in ARRAYS {
            if !rng.chance(if t == SHT_PREINIT_ARRAY { 15 } else { 60 }) { continue; }
            let mut targets: Vec<(RSym, i64)> = vec![];
            for (i, s) in u.obj.syms.iter().enumerate() { if let Loc::Sec(x) = s.loc { if u.obj.secs[x].flags & X != 0 { targets.push((RSym::Sym(i), 0)); } } }
            for s in code_secs(u) { let o = u.spot(rng, s) as i64; targets.push((RSym::SecSym(s), o)); }
            let fs: Vec<String> = pool.defined.iter().filter(|d| d.1 == Kind::Func).map(|d| d.0.clone()).collect();
            if !fs.is_empty() && rng.chance(30) { let nm = rng.pick(&fs).clone(); let i = u.global(&nm, GLOBAL, NOTYPE); targets.push((RSym::Sym(i), 0)); }
            if targets.is_empty() { continue; }
            let nm = if k.prio_arrays && rng.chance(40) { format!("{}.{:05}", n, *rng.pick(&[100, 101, 200])) } else if rng.chance(8) { format!("{}.{}", n, *rng.pick(&["early", "x0100", "a.5", ""])) } else if rng.chance(4) { format!("{}_{}", *rng.pick(&["ctors", ".my", &n[1..], n]), rng.below(2)) } else { n.to_string() };
            // what has the name only is an array as well
            let named = nm.strip_prefix(n).map_or(false, |r| r.is_empty() || r.starts_with('.'));
            let t = if named && rng.chance(5) { SHT_PROGBITS } else { t };
            let s = u.sec(&nm, t, A | W, 8);
            for j in 0..rng.range(1, 4) {
                let (y, a) = *rng.pick(&targets);
                u.obj.secs[s].data.extend([0u8; 8]);
                u.obj.secs[s].rels.push(ORel { off: 8 * j as u64, typ: R_64, sym: y, addend: a });
            }
            u.witness.push(s);
        }
    }
    if k.frags {
        for n in [".init", ".fini"] {
            if rng.chance(50) { let al = *rng.pick(&[1, 1, 4, 16]); let s = u.sec(n, SHT_PROGBITS, A | X, al); u.mark(rng, s); }
        }
    }
}

struct LibSpec { lib: Lib, file: String, stem: String, as_needed: bool }

fn collide_name(rng: &mut Rng, i: usize) -> String {
    // blocks of two characters that hash alike: "ab" and "bA"
    let mut s = String::from("k");
    for b in 0..6 { s += if i >> b & 1 == 0 { "ab" } else { "bA" }; }
    if rng.chance(20) { s += "q"; }
    s
}

pub struct Made { pub world: World, pub knobs: Knobs }

pub fn image_world(rng: &mut Rng, prop: &str) -> Made {
    let k = knobs(rng, prop);
    let mut pool = Pool::default();
    let n = k.objs;
    // --- definitions of the command-line objects
    let mut defs: Vec<Vec<Def>> = vec![vec![]; n];
    let start_in = if rng.chance(60) { 0 } else { rng.range(0, n - 1) };
    defs[start_in].push(Def { name: "_start".into(), kind: Kind::Func, weak: false, abs: None, common: false });
    let ng = rng.range(1, 3 + 2 * n);
    for g in 0..ng {
        let name = if k.collide && rng.chance(40) { format!("g{}", collide_name(rng, g)) } else { named(&k, format!("g_{}", g)) };
        if pool.defined.iter().any(|d| d.0 == name) { continue; }
        let kind = if rng.chance(60) { Kind::Func } else { Kind::Data };
        let owner = rng.range(0, n - 1);
        if k.abs && rng.chance(15) {
            let v = *rng.pick(&[0u64, 1, 0x1234, 0x7fff_0000, 0x10]);
            defs[owner].push(Def { name: name.clone(), kind, weak: false, abs: Some(v), common: false });
            pool.abs.push((name, v));
            continue;
        }
        let mut weak_owner = false;
        if k.weak_defs && rng.chance(60) {
            // several definitions: at most one strong
            weak_owner = rng.chance(40);
            for o in 0..n { if o != owner && rng.chance(50) { defs[o].push(Def { name: name.clone(), kind: if rng.chance(80) { kind.clone() } else { Kind::Data }, weak: true, abs: None, common: false }); } }
        }
        let kind2 = if defs.iter().flatten().any(|d| d.name == name && d.kind != kind) { Kind::Data } else { kind.clone() };
        let common = k.common && rng.chance(25) && kind == Kind::Data && !weak_owner;
        if common { for o in 0..n { if o != owner && rng.chance(30) { defs[o].push(Def { name: name.clone(), kind: Kind::Data, weak: false, abs: None, common: true }); } } }
        // a strong definition may meet tentative ones
        let common = common && rng.chance(75);
        defs[owner].push(Def { name: name.clone(), kind, weak: weak_owner, abs: None, common });
        pool.defined.push((name, kind2));
    }
    if k.tls {
        for g in 0..rng.range(1, 4) {
            let name = named(&k, format!("t_{}", g));
            let owner = rng.range(0, n - 1);
            let weak = k.weak_defs && rng.chance(30);
            if k.weak_defs { for o in 0..n { if o != owner && rng.chance(25) { defs[o].push(Def { name: name.clone(), kind: Kind::Tls, weak: true, abs: None, common: false }); } } }
            let tentative = k.common && rng.chance(40);
            if tentative { for o in 0..n { if o != owner && rng.chance(30) { defs[o].push(Def { name: name.clone(), kind: Kind::Tls, weak: false, abs: None, common: true }); } } }
            let common = tentative && !weak && rng.chance(75);
            defs[owner].push(Def { name: name.clone(), kind: Kind::Tls, weak: weak && !common, abs: None, common });
            pool.tls.push(name);
        }
    }
    let mut groups: Vec<Group> = vec![];
    if k.groups {
        for i in 0..rng.range(1, 3) {
            let comdat = rng.chance(85);
            let mut names = vec![];
            for q in 0..rng.range(1, 3) {
                let kind = if k.tls && rng.chance(20) { Kind::Tls } else if rng.chance(60) { Kind::Func } else { Kind::Data };
                names.push((named(&k, format!("inline{}_{}", i, q)), kind));
            }
            let first = rng.range(0, n - 1);
            let often = *rng.pick(&[30, 60, 90]);
            let objs: Vec<usize> = (0..n).filter(|o| *o == first || rng.chance(often)).collect();
            // a strong definition of one of the names that is in no group
            if rng.chance(10) { let o = rng.range(0, n - 1); if !objs.contains(&o) { let (n, kd) = rng.pick(&names).clone(); defs[o].push(Def { name: n, kind: kd, weak: rng.chance(50), abs: None, common: false }); } }
            for (n, kd) in &names { if *kd == Kind::Tls { pool.tls.push(n.clone()); } else { pool.defined.push((n.clone(), kd.clone())); } }
            // 0: a symbol of the group, 1: a symbol made for the purpose, 2: a section
            groups.push(Group { id: i, sig: rng.below(3) as u8, comdat, names, objs, alike: rng.chance(25), seed: rng.u64(), strong: rng.chance(25) });
        }
    }
    if k.weak_refs { for i in 0..3 { pool.weak_none.push(format!("maybe_{}", i)); } }
    // --- libraries
    let mut libs: Vec<LibSpec> = vec![];
    for l in 0..k.libs {
        let mut lib = Lib { soname: None, needed: vec!["libc.so.6".into()], syms: vec![], protected: vec![], hash: 1 + rng.below(3) as u8 };
        if k.soname && rng.chance(70) { lib.soname = Some(format!("libs{}.so.{}", l, rng.range(1, 9))); }
        let stem = if rng.chance(if prop == "C11" { 35 } else { 12 }) { format!("s{}{}", l, rng.pick(&["-2.0", ".1", ".so", ".", "++", "=x", ".a", ".tar.gz", "-"])) } else { format!("s{}", l) };
        libs.push(LibSpec { lib, file: format!("lib{}.so", stem), stem, as_needed: false });
    }
    if !libs.is_empty() {
        let mut off_t = vec![0u64; libs.len()];
        let mut off_d = vec![0u64; libs.len()];
        for i in 0..k.imports + rng.range(0, 3) {
            let l = rng.range(0, libs.len() - 1);
            let name = if k.collide && rng.chance(60) { collide_name(rng, i) } else { named(&k, format!("f_{}", i)) };
            if pool.fns.contains(&name) { continue; }
            let chosen = rng.chance(6);
            let mut put = |l: usize, libs: &mut Vec<LibSpec>, weak: bool| {
                libs[l].lib.syms.push(LSym { name: name.clone(), bind: if weak { WEAK } else { GLOBAL }, typ: if chosen { IFUNC } else { FUNC }, undef: false, off: off_t[l], size: 16 });
                off_t[l] += 16;
            };
            put(l, &mut libs, rng.chance(15));
            if k.lib_dups && rng.chance(40) { let l2 = rng.range(0, libs.len() - 1); if l2 != l { put(l2, &mut libs, rng.chance(20)); } }
            if i < k.imports || rng.chance(30) { pool.fns.push(name); }
        }
        for i in 0..k.data_imports {
            let l = rng.range(0, libs.len() - 1);
            let size = *rng.pick(&[1u64, 2, 4, 8, 8, 12, 16, 24, 32, 40, 100, 256]);
            let name = named(&k, format!("o_{}", i));
            let unique = k.unique && rng.chance(40);
            let mut put = |l: usize, libs: &mut Vec<LibSpec>, size: u64| {
                off_d[l] = (off_d[l] + 31) & !31;
                let bind = if unique { UNIQUE } else { GLOBAL };
                libs[l].lib.syms.push(LSym { name: name.clone(), bind, typ: OBJECT, undef: false, off: off_d[l], size });
                off_d[l] += size;
            };
            put(l, &mut libs, size);
            if k.lib_dups && rng.chance(30) { let l2 = rng.range(0, libs.len() - 1); if l2 != l { put(l2, &mut libs, size); } }
            if k.aliases && rng.chance(50) {
                // further names for the same object
                let (off, sz) = { let y = libs[l].lib.syms.iter().find(|y| y.name == name).unwrap(); (y.off, y.size) };
                for a in 0..rng.range(1, 2) {
                    let alias = match a { 0 => format!("__{}", name), _ => format!("{}_also", name) };
                    let sz = if rng.chance(85) { sz } else { rng.range(1, sz as usize) as u64 };
                    let y = LSym { name: alias.clone(), bind: if rng.chance(50) { GLOBAL } else { WEAK }, typ: OBJECT, undef: false, off, size: sz };
                    let at = if rng.chance(50) { libs[l].lib.syms.len() } else { rng.range(0, libs[l].lib.syms.len()) };
                    libs[l].lib.syms.insert(at, y);
                    if rng.chance(50) { pool.datas.push(alias); }
                    else if k.weak_defs && rng.chance(25) {
                        // the program has something else by that name
                        let o = rng.range(0, n - 1);
                        defs[o].push(Def { name: alias.clone(), kind: Kind::Data, weak: rng.chance(20), abs: None, common: rng.chance(20) });
                        pool.defined.push((alias, Kind::Data));
                    }
                }
            }
            pool.datas.push(name);
        }
        if k.tls {
            for i in 0..rng.range(0, 3) {
                let l = rng.range(0, libs.len() - 1);
                let name = format!("tv_{}", i);
                libs[l].lib.syms.push(LSym { name: name.clone(), bind: GLOBAL, typ: STT_TLS, undef: false, off: rng.below(8) * 4, size: 4 });
                if k.lib_dups && rng.chance(30) { let l2 = rng.range(0, libs.len() - 1); if l2 != l { libs[l2].lib.syms.push(LSym { name: name.clone(), bind: GLOBAL, typ: STT_TLS, undef: false, off: rng.below(8) * 4, size: 4 }); } }
                pool.tls_imports.push(name);
            }
        }
        if k.lib_override {
            for (d, _) in pool.defined.clone() { if rng.chance(30) { let l = rng.range(0, libs.len() - 1); libs[l].lib.syms.push(LSym { name: d, bind: GLOBAL, typ: if rng.chance(70) { FUNC } else { OBJECT }, undef: false, off: off_t[l], size: 16 }); off_t[l] += 16; } }
        }
        if k.lib_undef {
            // one library refers to what another one defines
            let libs_objects: Vec<String> = libs.iter().flat_map(|l| l.lib.syms.iter().filter(|y| y.typ == OBJECT && !y.undef).map(|y| y.name.clone())).collect();
            for l in &mut libs {
                let mut c: Vec<String> = vec!["malloc".into(), "free".into()];
                c.extend(pool.defined.iter().map(|d| d.0.clone()));
                c.extend(pool.fns.iter().cloned());
                c.extend(pool.weak_none.iter().cloned());
                let objects: Vec<String> = libs_objects.iter().filter(|_| rng.chance(50)).cloned().collect();
                c.extend(objects);
                for _ in 0..rng.range(1, 4) {
                    let nm = rng.pick(&c).clone();
                    if !l.lib.syms.iter().any(|s| s.name == nm) { l.lib.syms.push(LSym { name: nm, bind: if rng.chance(70) { GLOBAL } else { WEAK }, typ: *rng.pick(&[NOTYPE, FUNC, NOTYPE, OBJECT]), undef: true, off: 0, size: *rng.pick(&[0, 0, 8]) }); }
                }
            }
        }
    }
    // --- archives: members with their own symbols
    struct Mem { ar: usize, name: String, defs: Vec<Def>, refs: Vec<String>, dup: bool }
    let mut mems: Vec<Mem> = vec![];
    for a in 0..k.archives {
        let cnt = rng.range(1, 4) + k.skipped;
        for j in 0..cnt {
            let id = mems.len();
            let mut d = vec![];
            for q in 0..rng.range(1, 3) { d.push(Def { name: named(&k, format!("m{}_{}", id, q)), kind: if rng.chance(70) { Kind::Func } else { Kind::Data }, weak: k.weak_defs && rng.chance(15), abs: None, common: false }); }
            let nm = if rng.chance(20) { format!("a_rather_long_member_name_{}.o", j) } else if rng.chance(15) { "same.o".to_string() } else { format!("mem{}.o", j) };
            mems.push(Mem { ar: a, name: nm, defs: d, refs: vec![], dup: false });
        }
    }
    if k.arch_dups && k.archives >= 2 {
        for q in 0..rng.range(1, 2) {
            let kind = if rng.chance(70) { Kind::Func } else { Kind::Data };
            let mut order: Vec<usize> = (0..k.archives).collect();
            rng.shuffle(&mut order);
            for a in order.iter().take(rng.range(2, k.archives)) {
                mems.push(Mem { ar: *a, name: format!("dup{}.o", q), defs: vec![Def { name: format!("dup_{}", q), kind: kind.clone(), weak: false, abs: None, common: false }], refs: vec![], dup: true });
            }
        }
    }
    let mut both_refs: Vec<(usize, String, bool, bool)> = vec![];
    let mut obj_member_refs: Vec<Vec<String>> = vec![vec![]; n];
    let mut kinds: BTreeMap<String, Kind> = BTreeMap::new();
    for m in &mems { for d in &m.defs { kinds.insert(d.name.clone(), d.kind.clone()); } }
    if !mems.is_empty() {
        let mut live: Vec<usize> = vec![];
        for _ in 0..rng.range(1, 3) {
            let m = rng.range(0, mems.len() - 1);
            let d = rng.pick(&mems[m].defs).name.clone();
            let o = rng.range(0, n - 1);
            obj_member_refs[o].push(d);
            live.push(m);
        }
        for _ in 0..k.chain {
            let from = if k.chain > 6 && rng.chance(85) { *live.last().unwrap() } else { *rng.pick(&live) };
            if mems[from].dup { continue; }
            let to = rng.range(0, mems.len() - 1);
            if to == from { continue; }
            let d = rng.pick(&mems[to].defs).name.clone();
            mems[from].refs.push(d);
            live.push(to);
        }
        // a library has names that members turn out to define, which are linked for others of theirs
        if !libs.is_empty() && k.lib_override || rng.chance(if matches!(prop, "C07" | "C10" | "C15" | "C16" | "C18") { 25 } else { 0 }) {
            for m in live.clone() {
                if libs.is_empty() || mems[m].dup || rng.chance(50) { continue; }
                let name = format!("both{}", m);
                if mems[m].defs.iter().any(|d| d.name == name) { continue; }
                let data = rng.chance(40);
                let l = rng.range(0, libs.len() - 1);
                let bind = if rng.chance(80) { GLOBAL } else { WEAK };
                if data { libs[l].lib.syms.push(LSym { name: name.clone(), bind, typ: OBJECT, undef: false, off: 0x2000 + 32 * (m as u64 % 128), size: 8 }); }
                else { libs[l].lib.syms.push(LSym { name: name.clone(), bind, typ: FUNC, undef: false, off: 0x3000 + 16 * (m as u64 % 128), size: 16 }); }
                mems[m].defs.push(Def { name: name.clone(), kind: if data { Kind::Data } else { Kind::Func }, weak: k.weak_defs && rng.chance(30), abs: None, common: false });
                kinds.insert(name.clone(), if data { Kind::Data } else { Kind::Func });
                for o in 0..n { if rng.chance(60) { both_refs.push((o, name.clone(), data, k.weak_refs && rng.chance(30))); } }
            }
        }
        // members nobody needs refer to things too
        for i in 0..mems.len() { if !live.contains(&i) && !mems[i].dup && rng.chance(50) { let to = rng.range(0, mems.len() - 1); if to != i { let d = rng.pick(&mems[to].defs).name.clone(); mems[i].refs.push(d); } if rng.chance(30) { mems[i].refs.push("nowhere_defined".into()); kinds.insert("nowhere_defined".into(), Kind::Func); } } }
    }
    // --- failure cases
    let mut extra_refs: Vec<(usize, String, bool)> = vec![];
    let mut dup_obj: Option<usize> = None;
    if rng.chance(k.fail) && prop == "C09" {
        for _ in 0..rng.range(1, 2) {
            match rng.below(8) {
                7 => {
                    // two members of one archive define a name
                    let live: Vec<usize> = (0..mems.len()).filter(|m| obj_member_refs.iter().flatten().any(|r| mems[*m].defs.iter().any(|d| d.name == *r)) && !mems[*m].dup).collect();
                    let weak = rng.chance(25);
                    if let Some(m) = live.first().copied() {
                        let c: Vec<usize> = (0..mems.len()).filter(|x| *x != m && mems[*x].ar == mems[m].ar && !mems[*x].dup).collect();
                        if !c.is_empty() {
                            let x = *rng.pick(&c);
                            if !live.contains(&x) { let d = mems[x].defs[0].name.clone(); obj_member_refs[0].push(d); }
                            mems[m].defs.push(Def { name: "both_have".into(), kind: Kind::Func, weak: false, abs: None, common: false });
                            mems[x].defs.push(Def { name: "both_have".into(), kind: Kind::Func, weak, abs: None, common: false });
                        }
                    }
                }
                0 | 1 => {
                    // a few, or a crowd of them
                    let (c, names) = if rng.chance(12) { (rng.range(5, 60), 40) } else { (1, 3) };
                    for _ in 0..c { let o = rng.range(0, n - 1); extra_refs.push((o, format!("missing_{}", rng.below(names)), false)); }
                    // somebody else could do without them
                    if k.weak_refs && rng.chance(60) {
                        for (o, nm, _) in extra_refs.clone() { if rng.chance(60) { let w = rng.range(0, n - 1); if w != o { extra_refs.push((w, nm, true)); } } }
                    }
                }
                2 => if !libs.is_empty() {
                    let l = rng.range(0, libs.len() - 1);
                    libs[l].lib.syms.push(LSym { name: "lib_wants".into(), bind: if rng.chance(70) { GLOBAL } else { WEAK }, typ: if rng.chance(50) { FUNC } else { NOTYPE }, undef: true, off: 0, size: 0 });
                    let o = rng.range(0, n - 1);
                    extra_refs.push((o, "lib_wants".into(), false));
                },
                3 => if n >= 2 {
                    let (a, b) = (rng.range(0, n - 1), rng.range(0, n - 1));
                    let data = rng.chance(40);
                    if a != b { for o in [a, b] { defs[o].push(Def { name: "twice".into(), kind: if data { Kind::Data } else { Kind::Func }, weak: false, abs: None, common: false }); } }
                },
                4 => if !mems.is_empty() {
                    // a pulled member defines a name again
                    let live: Vec<usize> = (0..mems.len()).filter(|m| obj_member_refs.iter().flatten().any(|r| mems[*m].defs.iter().any(|d| d.name == *r)) && !mems[*m].dup).collect();
                    if !live.is_empty() {
                        let m = *rng.pick(&live);
                        let nm = if rng.chance(50) { "_start".to_string() } else { pool.defined.first().map(|d| d.0.clone()).unwrap_or("_start".into()) };
                        let weak = rng.chance(40);
                        if !pool.defined.iter().any(|d| d.0 == nm && d.1 == Kind::Data) { mems[m].defs.push(Def { name: nm, kind: Kind::Func, weak, abs: None, common: false }); }
                    }
                },
                5 => if !mems.is_empty() {
                    let m = rng.range(0, mems.len() - 1);
                    if !mems[m].dup { mems[m].refs.push("member_missing".into()); kinds.insert("member_missing".into(), Kind::Func); }
                },
                _ => dup_obj = Some(rng.range(0, n - 1)),
            }
        }
    }
    // --- write the objects
    let globals: Vec<String> = pool.defined.iter().map(|d| d.0.clone()).chain(pool.fns.iter().cloned()).chain(pool.datas.iter().cloned()).chain(kinds.keys().cloned()).chain(["_start".to_string()]).collect();
    let any_init = k.arrays;
    let mut has_arr: BTreeSet<&str> = BTreeSet::new();
    let mut units: Vec<Unit> = vec![];
    for o in 0..n {
        let mut u = Unit::new(rng, &k);
        skeleton(rng, &k, &mut u, true);
        let mut d = defs[o].clone();
        if rng.chance(50) { rng.shuffle(&mut d); }
        // references may come before definitions in the symbol table
        add_defs(rng, &k, &mut u, &d);
        add_locals(rng, &k, &mut u, o, &globals);
        arrays(rng, &k, &mut u, &pool);
        for s in &u.obj.secs { for (t, n) in ARRAYS { if s.typ == t || s.typ == SHT_PROGBITS && s.name.strip_prefix(n).map_or(false, |r| r.is_empty() || r.starts_with('.')) { has_arr.insert(n); } } }
        units.push(u);
    }
    if any_init && k.specials {
        for (_, n) in ARRAYS { if has_arr.contains(n) { pool.specials.extend([format!("__{}_start", &n[1..]), format!("__{}_end", &n[1..])]); } }
    }
    if k.specials { pool.specials.push("_GLOBAL_OFFSET_TABLE_".into()); }
    for o in 0..n {
        let u = &mut units[o];
        for r in obj_member_refs[o].clone() { ref_to(rng, &k, u, &r, 0, &kinds[&r], false); }
        refs(rng, &k, u, &pool, k.refs);
        for (x, r, data, weak) in &both_refs { if *x == o { ref_to(rng, &k, u, r, if *data { 2 } else { 1 }, &Kind::Func, *weak); } }
        for (x, r, weak) in &extra_refs { if *x == o { ref_to(rng, &k, u, r, if *weak { 3 } else { 0 }, &Kind::Func, *weak); } }
        if k.overflow && rng.chance(40) { overflow(rng, u); }
        if k.unsupported && rng.chance(25) && u.obj.secs.iter().any(|s| s.rels.iter().any(|r| r.typ != R_NONE)) {
            u.obj.odd_table = rng.range(1, 3) as u8;
            u.obj.tail = rng.below(30);
        }
        if k.unsupported && rng.chance(40) {
            let code = code_secs(u);
            if !code.is_empty() && !u.obj.syms.is_empty() {
                let s = *rng.pick(&code);
                let t = *rng.pick(&[R_GOTPCREL, R_16, R_8, R_PC8, R_PC16, R_PC64, 25, 26, 200]);
                let i = rng.range(0, u.obj.syms.len() - 1);
                if u.obj.syms[i].typ == STT_TLS { continue; }
                let sy = RSym::Sym(i);
                u.put(rng, s, t, sy, if t == R_GOTPCREL { -4 } else { 0 }, 0);
            }
        }
        finish(rng, &k, u);
        if k.packed && rng.chance(50) { packed(rng, u); }
        for g in &groups { if g.objs.contains(&o) { add_group(rng, &k, u, g, &pool, true); } }
    }
    // every import is used at least once somewhere (in profiles that count them)
    let mut tree = Tree::new();
    let cwd = "/w".to_string();
    let mut items: Vec<Vec<String>> = vec![]; // groups of arguments, in order
    let mut obj_args = vec![];
    for (o, u) in units.iter().enumerate() {
        let (p, arg) = match rng.below(4) {
            0 => (format!("/w/obj{}.o", o), format!("obj{}.o", o)),
            1 => (format!("/w/sub/obj{}.o", o), format!("sub/../sub/obj{}.o", o)),
            2 => (format!("/build/t/obj{}.o", o), format!("/build/t/obj{}.o", o)),
            _ => (format!("/w/obj{}.o", o), format!("./obj{}.o", o)),
        };
        tree.insert(p, file(u.obj.write()));
        obj_args.push(arg);
    }
    if let Some(d) = dup_obj {
        // a second object with the same contents under another name
        tree.insert("/w/again.o".into(), file(units[d].obj.write()));
        obj_args.push("again.o".into());
    }
    for a in &obj_args { items.push(vec![a.clone()]); }
    // members
    let mut ar_args = vec![];
    let dirs = ["/usr/lib", "/opt/lib", "/w/libs", "/lib64"];
    let ndirs = rng.range(1, 4);
    let mut my_dirs: Vec<String> = dirs.iter().map(|s| s.to_string()).collect();
    rng.shuffle(&mut my_dirs);
    my_dirs.truncate(ndirs);
    for a in 0..k.archives {
        let mut ms = vec![];
        for m in mems.iter().filter(|m| m.ar == a) {
            let mut u = Unit::new(rng, &k);
            skeleton(rng, &k, &mut u, true);
            add_defs(rng, &k, &mut u, &m.defs);
            add_locals(rng, &k, &mut u, 50 + ms.len(), &globals);
            if !m.dup {
                let mut ka = k.clone();
                ka.arrays = k.arrays && rng.chance(40);
                ka.frags = false;
                arrays(rng, &ka, &mut u, &pool);
                for r in &m.refs { ref_to(rng, &k, &mut u, r, 0, &kinds[r], false); }
                let mut p2 = pool.clone();
                if rng.chance(50) { p2.weak_none.clear(); }
                let nr = rng.range(0, 3);
                refs(rng, &k, &mut u, &p2, nr);
            } else { local_refs(rng, &k, &mut u, 2); }
            finish(rng, &k, &mut u);
            if k.packed && rng.chance(15) { packed(rng, &mut u); }
            if !m.dup { for g in &groups { if rng.chance(25) { add_group(rng, &k, &mut u, g, &pool, false); } } }
            let g: Vec<String> = u.obj.syms.iter().filter(|s| s.bind != LOCAL && s.loc != Loc::Undef).map(|s| s.name.clone()).collect();
            let mut data = u.obj.write();
            if rng.chance(25) { let l = rng.range(1, 7); data.extend(rng.bytes(l)); }
            ms.push(Member { name: m.name.clone(), data, globals: g });
        }
        if rng.chance(50) { rng.shuffle(&mut ms); }
        let name = format!("libar{}.a", a);
        let d = rng.pick(&my_dirs).clone();
        let p = format!("{}/{}", d, name);
        tree.insert(p.clone(), file(write_archive(&ms)));
        let arg = match rng.below(4) { 0 => p, 1 => name.clone(), 2 => format!("-lar{}", a), _ => format!("-l{}", format!("ar{}", a)) };
        ar_args.push((arg, ms, d, a));
    }
    if k.vis { for l in &mut libs { for s in &l.lib.syms { if rng.chance(30) { l.lib.protected.push(s.name.clone()); } } } }
    // libraries on disk
    let mut lib_args: Vec<(String, bool)> = vec![];
    let mut group: Vec<(String, bool)> = vec![];
    if !pool.fns.is_empty() && rng.chance(if prop == "C18" { 30 } else { 5 }) {
        // a library whose name is that of a symbol too
        let name = rng.pick(&pool.fns).clone();
        let l = rng.range(0, libs.len() - 1);
        libs[l].lib.soname = Some(name);
    }
    for (l, spec) in libs.iter_mut().enumerate() {
        let d = rng.pick(&my_dirs).clone();
        let p = format!("{}/{}", d, spec.file);
        if k.lib_links && rng.chance(60) {
            // libx.so -> libx.so.1.2, in the same or another directory
            let real = match rng.below(3) { 0 => format!("{}/{}.1.2", d, spec.file), 1 => format!("/data/{}.7", spec.file), _ => format!("{}/real/{}.0", d, spec.file) };
            tree.insert(real.clone(), file(spec.lib.write()));
            let rel = real.strip_prefix(&format!("{}/", d)).map(String::from);
            tree.insert(p.clone(), Node::Link(rel.unwrap_or(real)));
        } else { tree.insert(p.clone(), file(spec.lib.write())); }
        if k.as_needed && rng.chance(60) { spec.as_needed = true; }
        let arg = match rng.below(4) { 0 => p.clone(), 1 => spec.file.clone(), _ => format!("-l{}", spec.stem) };
        if k.script && rng.chance(50) && group.len() < 4 { group.push((if rng.chance(50) { p } else { format!("-l{}", spec.stem) }, rng.chance(40))); } else { lib_args.push((arg, spec.as_needed)); }
        // a decoy: same name in a later directory, other contents
        if k.decoys && rng.chance(60) {
            let pos = my_dirs.iter().position(|x| *x == d).unwrap();
            if pos + 1 < my_dirs.len() {
                let mut other = spec.lib.clone();
                for s in &mut other.syms { s.off += 0x40; }
                if rng.chance(50) { other.soname = Some(format!("libdecoy{}.so", l)); }
                let later = rng.range(pos + 1, my_dirs.len() - 1);
                tree.insert(format!("{}/{}", my_dirs[later], spec.file), file(other.write()));
            }
            if let (Some(dot), true) = (spec.stem.rfind('.'), rng.chance(70)) {
                // the name without what follows its last dot
                let mut other = spec.lib.clone();
                for s in &mut other.syms { s.off += 0x40; }
                let short = format!("{}/lib{}.so", rng.pick(&my_dirs), &spec.stem[..dot]);
                if !tree.contains_key(&short) { tree.insert(short, file(other.write())); }
            }
            if pos > 0 && rng.chance(60) {
                // an archive of that name earlier: shared objects still win
                tree.insert(format!("{}/lib{}.a", my_dirs[rng.range(0, pos - 1)], spec.stem), file(if rng.chance(50) { write_archive(&[]) } else { b"!<arch>\n".to_vec() }));
            }
        }
    }
    for (_, ms, d, a) in &ar_args {
        if k.decoys && rng.chance(60) {
            let pos = my_dirs.iter().position(|x| x == d).unwrap();
            if pos + 1 < my_dirs.len() {
                let mut other = ms.clone();
                for m in &mut other { let mut u = Unit::new(rng, &k); skeleton(rng, &k, &mut u, true); let ds: Vec<Def> = m.globals.iter().map(|g| Def { name: g.clone(), kind: if pool.tls.contains(g) { Kind::Tls } else { Kind::Func }, weak: false, abs: None, common: false }).collect(); add_defs(rng, &k, &mut u, &ds); finish(rng, &k, &mut u); m.data = u.obj.write(); }
                let later = rng.range(pos + 1, my_dirs.len() - 1);
                tree.insert(format!("{}/libar{}.a", my_dirs[later], a), file(write_archive(&other)));
            }
        }
    }
    if k.decoys {
        // directories and dangling links under a library's name are no libraries
        for spec in libs.iter() {
            for d in my_dirs.iter().map(|s| s.as_str()).chain(["/w"]) {
                for n in [spec.stem.clone(), spec.file.clone()] {
                    let p = format!("{}/{}", d, n);
                    if tree.contains_key(&p) || !rng.chance(15) { continue; }
                    tree.insert(p, if rng.chance(60) { Node::Dir } else { Node::Link("nowhere/at/all".into()) });
                }
            }
        }
        for a in 0..k.archives {
            for d in my_dirs.iter().map(|s| s.as_str()).chain(["/w"]) {
                for n in [format!("ar{}", a), format!("libar{}.so", a), format!("libar{}.a", a)] {
                    let p = format!("{}/{}", d, n);
                    if tree.contains_key(&p) || !rng.chance(10) { continue; }
                    tree.insert(p, if rng.chance(60) { Node::Dir } else { Node::Link("nowhere/at/all".into()) });
                }
            }
        }
    }
    if k.hordes {
        // more sections than any header can number, or many
        let most = *rng.pick(&[65281, 65400, 66000, 80000, 300]);
        let half = most / 2;
        for h in 0..2 {
            let mut o = Obj::default();
            for i in 0..half + h * (most - 2 * half) { o.secs.push(OSec { name: format!(".rodata.h{}_{}", h, i), typ: SHT_PROGBITS, flags: A, align: 1, data: vec![h as u8; 1], nobits: 0, rels: vec![], entsize: 0 }); }
            tree.insert(format!("/w/horde{}.o", h), file(o.write()));
            items.push(vec![format!("horde{}.o", h)]);
        }
    }
    // unrelated files, which nobody may touch
    tree.insert("/w/README".into(), file(b"unrelated\n".to_vec()));
    tree.insert("/w/out.bak".into(), Node::File { mode: 0o755, data: Arc::new(rng.bytes(40)) });
    if rng.chance(30) { tree.insert("/w/link.o".into(), Node::Link("README".into())); }
    // an archive with nothing in it, such as libpthread.a
    let hollow = rng.chance(if prop == "C10" || prop == "C11" { 25 } else { 4 });
    if hollow { tree.insert(format!("{}/libhollow.a", rng.pick(&my_dirs)), file(if rng.chance(70) { b"!<arch>\n".to_vec() } else { write_archive(&[]) })); }
    // command line
    let mut tail: Vec<Vec<String>> = vec![];
    for (a, _, _, _) in &ar_args { tail.push(vec![a.clone()]); }
    if hollow { tail.push(vec![rng.pick(&["-lhollow", "libhollow.a"]).to_string()]); }
    for (a, an) in &lib_args { tail.push(vec![if *an { "--as-needed".into() } else { "--no-as-needed".into() }, a.clone()]); }
    if !group.is_empty() {
        let mut s = String::new();
        if rng.chance(50) { s += "/* GNU ld script\n   Use the shared library.  */\n"; }
        if rng.chance(50) { s += "OUTPUT_FORMAT(elf64-x86-64)\n"; }
        if rng.chance(20) { s += "/***/ /* a * b */"; }
        s += "GROUP ( ";
        let mut open = false;
        for (g, an) in &group {
            if open && (!*an || rng.chance(40)) { s += ") "; open = false; }
            if *an && !open { s += *rng.pick(&["AS_NEEDED ( ", "AS_NEEDED(", "AS_NEEDED\n( /* only then */ "]); open = true; }
            s += g;
            s += *rng.pick(&[" ", "\n", "  \t", " /* x */ "]);
        }
        if open { s += ") "; }
        s += ")";
        if rng.chance(60) { s += "\n"; }
        let grp = *rng.pick(&["so", "so", "so", "a"]);
        let d = rng.pick(&my_dirs).clone();
        let nested = rng.chance(25);
        if nested {
            tree.insert(format!("{}/inner.ld", d), file(s.into_bytes()));
            tree.insert(format!("{}/libgrp.{}", d, grp), file(format!("GROUP({}/inner.ld)\n", d).into_bytes()));
        } else { tree.insert(format!("{}/libgrp.{}", d, grp), file(s.into_bytes())); }
        tail.push(vec!["--no-as-needed".into(), if rng.chance(60) { "-lgrp".into() } else { format!("{}/libgrp.{}", d, grp) }]);
    }
    if k.twice && !tail.is_empty() { for _ in 0..rng.range(1, 3) { let mut x = rng.pick(&tail).clone(); if x.len() == 2 && x[0].ends_with("as-needed") && rng.chance(50) { x[0] = if x[0] == "--as-needed" { "--no-as-needed" } else { "--as-needed" }.into(); } tail.push(x); } }
    rng.shuffle(&mut tail);
    if rng.chance(40) { rng.shuffle(&mut items); }
    let mut argv: Vec<String> = vec![];
    let out = match rng.below(6) { 0 => "", 1 => "/w/prog", 2 => "prog", 3 => "sub/prog", 4 => "prog.elf", _ => "/build/prog" };
    {
        // neighbours of the output that a careless clean-up might take for its own
        let full = match out { "" => "/w/out".to_string(), o if o.starts_with('/') => o.to_string(), o => format!("/w/{}", o) };
        let stem = full.strip_suffix(".elf").unwrap_or(&full).to_string();
        for s in [".tmp", "~", ".o", ".o~", ".old", ".new", ".part", ".lock", ".map", ".err", ".dld", ".tmp.1000", ".undef", ".log", ".bak"] {
            for base in [&full, &stem] { if rng.chance(if prop == "C04" || prop == "C21" { 45 } else { 4 }) { let p = format!("{}{}", base, s); if !tree.contains_key(&p) { let d = rng.bytes(20); tree.insert(p, file(d)); } } }
        }
    }
    if out.starts_with("sub") { tree.insert("/w/sub".into(), Node::Dir); }
    if out.starts_with("/build") { tree.insert("/build".into(), Node::Dir); }
    let mut opts: Vec<Vec<String>> = vec![];
    if !out.is_empty() { opts.push(vec!["-o".into(), out.into()]); }
    // -L keeps its order
    let mut lopts: Vec<Vec<String>> = vec![];
    for d in &my_dirs { lopts.push(if rng.chance(50) { vec![format!("-L{}", d)] } else { vec!["-L".into(), d.clone()] }); }
    if rng.chance(20) { let at = rng.range(0, lopts.len()); lopts.insert(at, if rng.chance(50) { vec!["-L/no/such/dir".into()] } else { vec!["-L".into(), "/no/such/dir".into()] }); }
    if rng.chance(70) { let h = rng.pick(&["sysv", "gnu", "both"]).to_string(); opts.push(if rng.chance(70) { vec![format!("--hash-style={}", h)] } else { vec!["--hash-style".into(), h] }); }
    if rng.chance(40) { opts.push(vec!["-dynamic-linker".into(), rng.pick(&["/lib64/ld-linux-x86-64.so.2", "/lib/ld-musl-x86_64.so.1", "/opt/a/very/long/path/for/a/loader/ld.so", "/ld.so"]).to_string()]); }
    if rng.chance(40) { opts.push(vec!["-m".into(), "elf_x86_64".into()]); }
    if rng.chance(30) { opts.push(vec!["--eh-frame-hdr".into()]); }
    if rng.chance(20) { opts.push(vec!["-z".into(), "relro".into()]); }
    if rng.chance(20) { opts.push(vec!["--build-id".into(), rng.pick(&["sha1", "sha1", "uuid", "md5", "0x12ab"]).to_string()]); }
    rng.shuffle(&mut opts);
    // interleave: inputs in order, options anywhere
    let mut seq: Vec<Vec<String>> = items;
    seq.extend(tail);
    if rng.chance(20) { seq.insert(0, vec!["--start-group".into()]); seq.push(vec!["--end-group".into()]); }
    for o in opts { let at = rng.range(0, seq.len()); seq.insert(at, o); }
    let mut at = 0;
    for l in lopts { at = rng.range(at, seq.len()); seq.insert(at, l); at += 1; }
    // without a style, --build-id is followed by an option or by nothing
    if rng.chance(20) {
        let at: Vec<usize> = (0..=seq.len()).filter(|&i| seq.get(i).is_none_or(|s| s[0].starts_with('-'))).collect();
        let i = *rng.pick(&at);
        seq.insert(i, vec!["--build-id".into()]);
    }
    for s in seq { argv.extend(s); }
    let mut world = World { tree, argv, env: vec![("PATH".into(), "/bin".into())], cwd, hard: vec![] };
    if rng.chance(if prop == "C11" { 25 } else { 5 }) { odd_names(rng, &mut world); }
    if prop == "C11" && rng.chance(k.fail) { search_failure(rng, &mut world); }
    Made { world, knobs: k }
}

/// Gives inputs that are named by their paths names which say something else than what they are.
fn odd_names(rng: &mut Rng, w: &mut World) {
    for i in 0..w.argv.len() {
        let a = w.argv[i].clone();
        if a.starts_with('-') || i > 0 && matches!(w.argv[i - 1].as_str(), "-o" | "-L" | "-l" | "-z" | "-m" | "-dynamic-linker" | "--build-id") { continue; }
        let abs = if a.starts_with('/') { a.clone() } else { format!("{}/{}", w.cwd.trim_end_matches('/'), a) };
        let data = match w.tree.get(&abs) { Some(n @ Node::File { .. }) => n.clone(), _ => continue };
        let (dir, base) = match a.rfind('/') { Some(k) => a.split_at(k + 1), None => ("", &a[..]) };
        let stem = base.split('.').next().unwrap_or(base).to_string();
        let named = |s: &[u8]| s.windows(stem.len().max(1)).any(|x| x == stem.as_bytes());
        if stem.is_empty() || !rng.chance(30) { continue; }
        // something else may lead to it by its name
        if w.argv.iter().enumerate().any(|(j, b)| j != i && named(b.as_bytes())) { continue; }
        if w.tree.iter().any(|(_, n)| match n { Node::Link(l) => named(l.as_bytes()), Node::File { data, .. } => !data.starts_with(b"\x7fELF") && !data.starts_with(b"!<arch>") && named(data), _ => false }) { continue; }
        let new = format!("{}{}{}", dir, stem, rng.pick(&["", ".a", ".so", ".o", ".lo", ".so.6", ".txt", ".ld", ".O", ".tar.gz"]));
        let to = if new.starts_with('/') { new.clone() } else { format!("{}/{}", w.cwd.trim_end_matches('/'), new) };
        if w.tree.contains_key(&to) { continue; }
        w.tree.remove(&abs);
        w.tree.insert(to, data);
        w.argv[i] = new;
    }
}

fn search_failure(rng: &mut Rng, w: &mut World) {
    match rng.below(4) {
        0 => { w.argv.push(rng.pick(&["-lmissing", "missing.o", "/no/such.a", "-lmissing"]).to_string()); }
        1 => {
            w.tree.insert("/w/bad.ld".into(), file(format!("GROUP ( {} )\n", rng.pick(&["-lmissing", "/no/file.so", "absent.o"])).into_bytes()));
            w.argv.push("bad.ld".into());
        }
        2 => {
            // remove one library file
            let c: Vec<String> = w.tree.keys().filter(|p| p.ends_with(".so") || p.ends_with(".a") || p.ends_with(".o")).cloned().collect();
            if !c.is_empty() { let p = rng.pick(&c).clone(); w.tree.remove(&p); }
        }
        _ => {
            let c: Vec<String> = w.tree.keys().filter(|p| p.ends_with(".so") || p.ends_with(".a") || p.ends_with(".o")).cloned().collect();
            if !c.is_empty() { let p = rng.pick(&c).clone(); if let Some(Node::File { mode, .. }) = w.tree.get_mut(&p) { *mode = 0; } }
        }
    }
}

fn refs(rng: &mut Rng, k: &Knobs, u: &mut Unit, pool: &Pool, n: usize) {
    let nl = rng.range(0, n / 2 + 1);
    local_refs(rng, k, u, nl);
    for _ in 0..n {
        match rng.below(12) {
            0..=3 => if !pool.defined.is_empty() { let (d, kd) = rng.pick(&pool.defined).clone(); let w = k.weak_refs && rng.chance(25); ref_to(rng, k, u, &d, 0, &kd, w); },
            4..=6 => if !pool.fns.is_empty() { let d = rng.pick(&pool.fns).clone(); let w = k.weak_refs && rng.chance(15); ref_to(rng, k, u, &d, 1, &Kind::Func, w); },
            7 | 8 => if !pool.datas.is_empty() { let d = rng.pick(&pool.datas).clone(); ref_to(rng, k, u, &d, 2, &Kind::Data, false); },
            9 => if !pool.weak_none.is_empty() { let d = rng.pick(&pool.weak_none).clone(); ref_to(rng, k, u, &d, 3, &Kind::Func, true); },
            10 => if !pool.specials.is_empty() { let d = rng.pick(&pool.specials).clone(); ref_to(rng, k, u, &d, 4, &Kind::Data, false); },
            _ => if !pool.abs.is_empty() { let (d, _) = rng.pick(&pool.abs).clone(); ref_to(rng, k, u, &d, 5, &Kind::Data, false); },
        }
    }
    if k.tls { for _ in 0..rng.range(0, 2 + n / 3) { tls_ref(rng, k, u, pool); } }
    // wide import profiles: name many imports directly
    if pool.fns.len() > 10 { for f in pool.fns.clone() { if rng.chance(45) { ref_to(rng, k, u, &f, 1, &Kind::Func, false); } } }
}

fn tls_ref(rng: &mut Rng, k: &Knobs, u: &mut Unit, pool: &Pool) {
    let code = code_secs(u);
    if code.is_empty() { return; }
    let s = *rng.pick(&code);
    let locals: Vec<usize> = (0..u.obj.syms.len()).filter(|i| u.obj.syms[*i].bind == LOCAL && u.obj.syms[*i].typ == STT_TLS).collect();
    let (sym, import) = match rng.below(10) {
        0..=1 if !u.tls.is_empty() && locals.len() < 6 => { let t = *rng.pick(&u.tls); let v = u.spot(rng, t); let nm = if k.same_local_names { "tls_state".to_string() } else { format!("tls_{}", locals.len()) }; (u.define(&nm, LOCAL, STT_TLS, Loc::Sec(t), v, 4), false) }
        2..=3 if !locals.is_empty() => (*rng.pick(&locals), false),
        4..=6 if !pool.tls_imports.is_empty() => { let nm = rng.pick(&pool.tls_imports).clone(); (u.global(&nm, GLOBAL, STT_TLS), true) }
        _ if !pool.tls.is_empty() => { let nm = rng.pick(&pool.tls).clone(); (u.global(&nm, GLOBAL, STT_TLS), false) }
        _ => return,
    };
    // an offset that is only known at run time does not fit an instruction
    let typ = if import && (k.unsupported && rng.chance(30)) { R_TPOFF32 } else if import { *rng.pick(&[R_GOTTPOFF, R_TLSGD]) } else { *rng.pick(&[R_TPOFF32, R_GOTTPOFF, R_TLSGD]) };
    let add = if typ == R_TPOFF32 { *rng.pick(&[0, 0, 4, 8, -1]) } else { -4 };
    let form = rng.u64();
    u.put(rng, s, typ, RSym::Sym(sym), add, form);
}

fn overflow(rng: &mut Rng, u: &mut Unit) {
    let alloc: Vec<usize> = u.marked.iter().copied().filter(|s| u.obj.secs[*s].flags & A != 0).collect();
    if alloc.is_empty() { return; }
    let s = *rng.pick(&alloc);
    let vals = [0x7fff_ffffu64, 0x8000_0000, 0xffff_ffff, 0x1_0000_0000, 0xffff_ffff_8000_0000, 0xffff_ffff_7fff_ffff, 0xffff_ffff_ffff_ffff, 0x9000_0000, 1 << 40, 1 << 62, 0x8000_0000_0000_0000];
    // near the ends of what a displacement reaches from the image
    let near = *rng.pick(&[0x7fff_ffff, 0x8000_0000, 0x801f_ff00, 0x8020_0000, 0x8020_1000, 0x8020_2000, 0x8020_3000, 0x8020_4000, 0x8030_0000, 0xffff_ffff_8020_0000, 0xffff_ffff_8020_1000, 0xffff_ffff_8020_2000, 0xffff_ffff_8020_3000, 0xffff_ffff_801f_f000, 0xffff_ffff_8000_0000]);
    let v = if rng.chance(50) { *rng.pick(&vals) } else { near + rng.below(0x1000) };
    let code: Vec<usize> = code_secs(u);
    let jump = !code.is_empty() && rng.chance(40);
    let t = if jump { *rng.pick(&[R_GOTPCRELX, R_REX_GOTPCRELX, R_REX_GOTPCRELX, R_PLT32]) } else { *rng.pick(&[R_32, R_32S, R_64, R_PC32]) };
    let s = if jump { *rng.pick(&code) } else { s };
    let name = format!("abs_{}", rng.below(1000));
    if u.obj.syms.iter().any(|y| y.name == name) { return; }
    let i = u.define(&name, LOCAL, NOTYPE, Loc::Abs, v, 0);
    let form = rng.u64();
    u.put(rng, s, t, RSym::Sym(i), if t == R_PC32 || jump { -4 } else { 0 }, form);
    if rng.chance(30) {
        let t = *rng.pick(&[R_32, R_32S, R_PC32]);
        let a = *rng.pick(&[1i64 << 33, -(1i64 << 33), 1 << 45]);
        let tgt = *rng.pick(&alloc);
        u.put(rng, s, t, RSym::SecSym(tgt), a, 0);
    }
}
