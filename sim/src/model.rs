//! Reference model: what a link of this world has to do, computed from the same bytes and command
//! line by independent, deliberately simple code.
use crate::elf::*;
use crate::world::{closed, Node, Tree, World};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub enum Expect {
    /// The link must succeed.
    Ok,
    /// The link must fail and stderr must contain all these texts.
    Fail(String, Vec<String>),
    /// Success with a right image and failure are both fine.
    Either(String),
    /// The model does not know (damaged or unsupported input): anything but a wrong success.
    Unknown(String),
}

/// An object that is linked: `o` is what counts of it, `raw` all of it, and `gone` the sections of COMDAT
/// groups that came with an object before it.
#[derive(Clone, Debug)]
pub struct LObj { pub path: String, pub member: Option<String>, pub o: Arc<PObj>, pub raw: Arc<PObj>, pub gone: BTreeSet<usize> }

impl LObj {
    fn new(path: String, member: Option<String>, o: PObj) -> LObj {
        let o = Arc::new(o);
        LObj { path, member, raw: o.clone(), o, gone: BTreeSet::new() }
    }
    fn ungroup(&mut self, seen: &mut BTreeSet<String>) {
        let o = &self.raw;
        for s in o.secs.iter().filter(|s| s.typ == SHT_GROUP) {
            let w: Vec<usize> = s.data.chunks_exact(4).map(|c| g32(c, 0).unwrap_or(0) as usize).collect();
            if w.first().map_or(true, |f| f & 1 == 0) { continue; }
            let sig = match o.syms.get(s.info as usize) {
                Some(y) if y.typ == SECTION => o.secs.get(y.shndx as usize).map(|s| s.name.clone()).unwrap_or_default(),
                Some(y) => y.name.clone(),
                None => continue,
            };
            if !seen.insert(sig) { self.gone.extend(&w[1..]); }
        }
        if self.gone.is_empty() { return; }
        let mut n = (**o).clone();
        n.rels.retain(|r| !self.gone.contains(&r.sec));
        for i in &self.gone {
            let s = match n.secs.get_mut(*i) { Some(s) => s, None => continue };
            *s = PSec { idx: *i, name: String::new(), typ: 0, flags: 0, align: 0, size: 0, data: vec![], addr: 0, off: 0, link: 0, info: 0, ent: 0, prio: u64::MAX };
        }
        let used: HashSet<usize> = n.rels.iter().map(|r| r.sym).collect();
        for (i, y) in n.syms.iter_mut().enumerate() {
            if y.shndx == 0 || !self.gone.contains(&(y.shndx as usize)) { continue; }
            if y.bind != LOCAL && used.contains(&i) { y.shndx = 0; y.value = 0; y.size = 0; }
            else { *y = PSym { name: String::new(), bind: LOCAL, typ: 0, other: 0, shndx: 0, value: 0, size: 0 }; }
        }
        self.o = Arc::new(n);
    }
}

/// A symbol that stands for nothing: the first of a table, or a local one of a section that is not linked.
pub fn nothing(y: &PSym) -> bool { y.bind == LOCAL && y.shndx == 0 && y.name.is_empty() }
#[derive(Clone, Debug)]
pub struct LLib { pub path: String, pub as_needed: bool, pub from_script: bool, pub needed_name: String, pub o: Arc<PObj>, pub supplies: bool, pub supplies_weakly: bool }

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Bind { Def(usize, usize), Import(usize, usize), Zero }

#[derive(Clone, Debug)]
pub struct Model {
    pub expect: Expect,
    pub output: String,
    pub hash_style: u8,
    pub interp: String,
    pub objs: Vec<LObj>,
    pub n_direct: usize,
    pub libs: Vec<LLib>,
    /// members that must not be linked: (archive path, member name, object)
    pub skipped: Vec<LObj>,
    pub binds: BTreeMap<String, Bind>,
    pub inputs: BTreeSet<String>,
    /// how often each is named
    pub named: BTreeMap<String, usize>,
    pub undefined: Vec<String>,
    pub duplicates: Vec<String>,
    /// names defined by tentative (COMMON) definitions: (size, alignment)
    pub commons: BTreeMap<String, (u64, u64)>,
}

/// Resolves a path in the tree, following links. Returns the canonical path.
pub fn resolve(t: &Tree, cwd: &str, p: &str) -> Option<String> {
    if p.is_empty() { return None; }
    let mut stack: Vec<String> = if p.starts_with('/') { vec![] } else { cwd.split('/').filter(|s| !s.is_empty()).map(String::from).collect() };
    let mut todo: Vec<String> = p.split('/').rev().map(String::from).collect();
    let mut links = 0;
    while let Some(c) = todo.pop() {
        if c.is_empty() || c == "." {
            // "file/" and "file/." need a directory
            if c == "." || todo.is_empty() {
                let cur = path_of(&stack);
                if !matches!(t.get(&cur), Some(Node::Dir)) && !(c.is_empty() && p.starts_with('/') && stack.is_empty()) { return None; }
            }
            continue;
        }
        if c == ".." { stack.pop(); continue; }
        stack.push(c);
        match t.get(&path_of(&stack))? {
            Node::Link(l) => {
                links += 1;
                if links > 40 { return None; }
                stack.pop();
                if l.starts_with('/') { stack.clear(); }
                for x in l.split('/').rev() { if !x.is_empty() { todo.push(x.into()); } }
            }
            Node::File { .. } => if !todo.is_empty() { return None; },
            Node::Dir => {}
        }
    }
    Some(path_of(&stack))
}
fn path_of(s: &[String]) -> String { if s.is_empty() { "/".into() } else { format!("/{}", s.join("/")) } }

/// Where an output path lands (the last component may not exist).
pub fn resolve_output(t: &Tree, cwd: &str, p: &str) -> String {
    if let Some(r) = resolve(t, cwd, p) { return r; }
    let (dir, name) = match p.rfind('/') { Some(i) => (if i == 0 { "/" } else { &p[..i] }, &p[i + 1..]), None => (".", p) };
    match resolve(t, cwd, dir) {
        Some(d) if d == "/" => format!("/{}", name),
        Some(d) => format!("{}/{}", d, name),
        // there is no such directory
        None => format!("?{}", p),
    }
}

pub struct Args {
    pub inputs: Vec<(String, bool)>,
    pub dirs: Vec<String>,
    pub output: String,
    pub hash_style: u8,
    pub interp: String,
    pub help: bool,
    pub bad: Option<String>,
}

pub fn parse_args(argv: &[String], as_needed: &mut bool, a: &mut Args) {
    let mut i = 0;
    let next = |i: &mut usize| { *i += 1; argv.get(*i - 1).cloned() };
    while let Some(x) = next(&mut i) {
        let need = |what: &str, a: &mut Args, i: &mut usize| -> String {
            match next(i) { Some(v) => v, None => { a.bad = Some(what.to_string()); String::new() } }
        };
        match x.as_str() {
            "--build-id" => {
                if let Some(n) = argv.get(i) {
                    if !n.starts_with('-') {
                        if !(["uuid", "sha1", "md5"].contains(&n.as_str()) || n.starts_with("0x")) { a.bad = Some("build id".into()); }
                        i += 1;
                    }
                }
            }
            "-m" => { let v = need("-m", a, &mut i); if v != "elf_x86_64" { a.bad = Some("emulation".into()); } }
            "-o" => a.output = need("-o", a, &mut i),
            "--eh-frame-hdr" | "--start-group" | "--end-group" => {}
            "--help" | "-h" => a.help = true,
            "-dynamic-linker" => {
                a.interp = need("-dynamic-linker", a, &mut i);
                let last = a.interp.split('/').rev().find(|s| !s.is_empty() && *s != ".");
                if a.bad.is_none() && matches!(last, None | Some("..")) { a.bad = Some("-dynamic-linker".into()); }
            }
            "-L" => { let v = need("-L", a, &mut i); a.dirs.push(v); }
            "-l" => { let v = need("-l", a, &mut i); a.inputs.push((v, *as_needed)); }
            "-z" => { need("-z", a, &mut i); }
            "--as-needed" => *as_needed = true,
            "--no-as-needed" => *as_needed = false,
            _ => {
                if x == "--hash-style" {
                    let h = need("--hash-style", a, &mut i);
                    a.hash_style = match h.as_str() { "sysv" => 1, "gnu" => 2, "both" => 3, _ => { a.bad = Some("hash style".into()); 3 } };
                } else if let Some(d) = x.strip_prefix("-L") { a.dirs.push(d.into()); }
                else if let Some(l) = x.strip_prefix("-l") { a.inputs.push((l.into(), *as_needed)); }
                else if let Some(h) = x.strip_prefix("--hash-style=") {
                    a.hash_style = match h { "sysv" => 1, "gnu" => 2, "both" => 3, _ => { a.bad = Some("hash style".into()); 3 } };
                } else { a.inputs.push((x.clone(), *as_needed)); }
            }
        }
        if a.bad.is_some() { return; }
    }
}

/// A linker script: GROUP ( ... AS_NEEDED ( ... ) ) and OUTPUT_FORMAT ( name ) commands.
pub fn parse_script(s: &str) -> Option<Vec<(String, bool)>> {
    // tokens
    let mut toks: Vec<String> = vec![];
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_whitespace() { i += 1; continue; }
        if b[i] == '/' && b.get(i + 1) == Some(&'*') {
            let mut j = i + 2;
            while j + 1 < b.len() && !(b[j] == '*' && b[j + 1] == '/') { j += 1; }
            if j + 1 >= b.len() { return None; }
            i = j + 2;
            continue;
        }
        if b[i] == '(' || b[i] == ')' { toks.push(b[i].to_string()); i += 1; continue; }
        let st = i;
        while i < b.len() && (b[i].is_alphanumeric() || "-._/+".contains(b[i])) {
            if b[i] == '/' && b.get(i + 1) == Some(&'*') { break; }
            i += 1;
        }
        if i == st { return None; }
        toks.push(b[st..i].iter().collect());
    }
    let mut out = vec![];
    let mut t = toks.iter().map(|s| s.as_str()).peekable();
    while let Some(cmd) = t.next() {
        match cmd {
            "OUTPUT_FORMAT" => {
                if t.next() != Some("(") { return None; }
                let n = t.next()?;
                if n == ")" || n == "(" { return None; }
                if t.next() != Some(")") { return None; }
            }
            "GROUP" => {
                if t.next() != Some("(") { return None; }
                loop {
                    match t.next()? {
                        ")" => break,
                        "(" => return None,
                        "AS_NEEDED" if t.peek() == Some(&"(") => {
                            t.next();
                            loop { match t.next()? { ")" => break, "(" => return None, n => out.push((n.to_string(), true)) } }
                        }
                        n => out.push((n.to_string(), false)),
                    }
                }
            }
            _ => return None,
        }
    }
    Some(out)
}

enum Kind { Obj, Lib, Archive, Script }

impl Model {
    pub fn new(w: &World) -> Model {
        let t = closed(&w.tree);
        let mut a = Args { inputs: vec![], dirs: vec![], output: "./out".into(), hash_style: 3, interp: "/lib64/ld-linux-x86-64.so.2".into(), help: false, bad: None };
        let mut as_needed = false;
        parse_args(&w.argv, &mut as_needed, &mut a);
        let mut m = Model {
            expect: Expect::Ok, output: resolve_output(&t, &w.cwd, &a.output), hash_style: a.hash_style, interp: a.interp.clone(), objs: vec![], n_direct: 0,
            libs: vec![], skipped: vec![], binds: BTreeMap::new(), inputs: BTreeSet::new(), named: BTreeMap::new(), undefined: vec![], duplicates: vec![], commons: BTreeMap::new(),
        };
        if a.help { m.expect = Expect::Unknown("help".into()); return m; }
        if a.bad.is_none() && !m.output.starts_with('/') { m.expect = Expect::Fail("no directory for the output".into(), vec![]); return m; }
        if let Some(b) = a.bad { m.expect = Expect::Fail(format!("bad argument {}", b), vec![]); return m; }
        // input search
        let mut archives: Vec<String> = vec![];
        let mut queue: Vec<(String, bool, bool)> = a.inputs.iter().map(|(n, s)| (n.clone(), *s, false)).collect();
        let mut scripts: Vec<(String, bool)> = vec![];
        let mut seen_scripts = BTreeSet::new();
        loop {
            for (name, asn, from_script) in std::mem::take(&mut queue) {
                let path = match Self::search(&t, &w.cwd, &a.dirs, &name) {
                    Some(p) => p,
                    None => { m.expect = Expect::Fail(format!("input {} not found", name), vec![name]); return m; }
                };
                let canon = resolve(&t, &w.cwd, &path).unwrap();
                m.inputs.insert(canon.clone());
                *m.named.entry(canon.clone()).or_insert(0) += 1;
                let data = match &t[&canon] { Node::File { data, mode } if mode & 0o400 != 0 => data.clone(), _ => { m.expect = Expect::Fail(format!("input {} not readable", path), vec![]); return m; } };
                let kind = if data.starts_with(b"!<arch>\n") { Kind::Archive }
                    else if data.starts_with(b"\x7fELF") { if g16(&data, 16) == Some(3) { Kind::Lib } else { Kind::Obj } }
                    else { Kind::Script };
                match kind {
                    Kind::Archive => if !archives.contains(&canon) { archives.push(canon) },
                    Kind::Script => scripts.push((canon, asn)),
                    Kind::Lib => {
                        let o = match parse(&data) { Some(o) if good_machine(&data) => o, _ => { m.expect = Expect::Unknown(format!("damaged library {}", path)); return m; } };
                        let base = path.rsplit('/').next().unwrap().to_string();
                        let needed_name = o.soname.clone().filter(|s| !s.is_empty()).unwrap_or(base);
                        m.libs.push(LLib { path: canon, as_needed: asn, from_script, needed_name, o: Arc::new(o), supplies: false, supplies_weakly: false });
                    }
                    Kind::Obj => {
                        let o = match parse(&data) { Some(o) if good_machine(&data) && o.etype == 1 => o, _ => { m.expect = Expect::Unknown(format!("damaged object {}", path)); return m; } };
                        m.objs.push(LObj::new(canon, None, o));
                    }
                }
            }
            if scripts.is_empty() { break; }
            let (s, asn) = scripts.remove(0);
            if !seen_scripts.insert(s.clone()) { continue; }
            let text = match &t[&s] { Node::File { data, .. } => String::from_utf8(data.to_vec()).ok(), _ => None };
            match text.as_deref().and_then(parse_script) {
                Some(v) if !text.as_deref().unwrap_or("").trim().is_empty() => {
                    // options inside GROUP
                    for (n, an) in v {
                        if let Some(l) = n.strip_prefix("-l") { queue.push((l.into(), an || asn, true)); }
                        else if n.starts_with('-') { m.expect = Expect::Unknown("option inside a script".into()); return m; }
                        else { queue.push((n, an || asn, true)); }
                    }
                }
                Some(_) => { m.expect = Expect::Unknown("empty text input".into()); return m; }
                None => { m.expect = Expect::Fail(format!("{} is not a linker script", s), vec![]); return m; }
            }
        }
        m.n_direct = m.objs.len();
        let mut groups = BTreeSet::new();
        for l in &mut m.objs { l.ungroup(&mut groups); }
        if m.inputs.contains(&m.output) {
            m.expect = Expect::Fail("the output is an input".into(), vec![]);
            return m;
        }
        // archives
        let mut ars = vec![];
        for p in &archives {
            let data = match &t[p] { Node::File { data, .. } => data.clone(), _ => unreachable!() };
            match parse_archive(&data) {
                Some(a) => ars.push((p.clone(), a, data)),
                None => { m.expect = Expect::Unknown(format!("damaged archive {}", p)); return m; }
            }
        }
        let mut taken: BTreeSet<(usize, usize)> = BTreeSet::new();
        let mut lib_defs: HashMap<String, (usize, usize)> = HashMap::new();
        for (li, l) in m.libs.iter().enumerate() {
            for (si, s) in l.o.dynsyms.iter().enumerate() {
                if s.shndx != 0 && s.bind != LOCAL && !s.name.is_empty() { lib_defs.entry(s.name.clone()).or_insert((li, si)); }
            }
        }
        loop {
            m.bind(&lib_defs);
            let mut want: Option<(usize, usize)> = None;
            'o: for n in &m.undefined {
                for (ai, (_, ar, _)) in ars.iter().enumerate() {
                    if let Some((_, mi)) = ar.index.iter().find(|(s, _)| s == n) {
                        if !taken.contains(&(ai, *mi)) { want = Some((ai, *mi)); break 'o; }
                    }
                }
            }
            let (ai, mi) = match want { Some(x) => x, None => break };
            taken.insert((ai, mi));
            let (p, ar, data) = &ars[ai];
            let (name, off, size) = &ar.members[mi];
            let d = &data[*off..*off + *size];
            match parse(d) {
                Some(o) if good_machine(d) && o.etype == 1 => { let mut l = LObj::new(p.clone(), Some(name.clone()), o); l.ungroup(&mut groups); m.objs.push(l); }
                _ => { m.expect = Expect::Unknown(format!("damaged member {} of {}", name, p)); return m; }
            }
        }
        for (ai, (p, ar, data)) in ars.iter().enumerate() {
            for (mi, (name, off, size)) in ar.members.iter().enumerate() {
                if taken.contains(&(ai, mi)) { continue; }
                if let Some(o) = parse(&data[*off..*off + *size]) { m.skipped.push(LObj::new(p.clone(), Some(name.clone()), o)); }
            }
        }
        for (n, b) in &m.binds {
            if let Bind::Import(li, _) = b {
                let strong = m.objs.iter().any(|l| l.o.syms.iter().any(|s| s.shndx == 0 && s.bind == GLOBAL && s.name == *n));
                if strong { m.libs[*li].supplies = true; } else { m.libs[*li].supplies_weakly = true; }
            }
        }
        let chosen: Vec<String> = m.objs.iter().flat_map(|l| l.o.syms.iter().filter(|s| s.typ == IFUNC && s.shndx != 0).map(|s| s.name.clone())).collect();
        // relocations that nobody can apply
        let useless = m.objs.iter().any(|l| l.o.secs.iter().any(|s| s.typ == SHT_REL && s.size > 0 || s.typ == SHT_RELA && s.size > 0 && s.info as usize >= l.o.secs.len()) || l.o.rels.iter().any(|r| r.typ != R_NONE && r.sym >= l.o.syms.len()));
        let strange: Vec<String> = m.objs.iter().flat_map(|l| l.o.syms.iter().filter(|s| s.shndx as usize >= l.o.secs.len() && s.shndx != 0xfff1 && s.shndx != 0xfff2).map(|s| s.name.clone())).collect();
        let packed = m.objs.iter().any(|l| l.o.secs.iter().any(|s| s.flags & 0x800 != 0 && s.typ != SHT_RELA));
        if packed {
            m.expect = Expect::Fail("compressed section".into(), vec![]);
        } else if !strange.is_empty() {
            let only = strange.len() == 1 && chosen.is_empty() && m.duplicates.is_empty() && m.plain_relocations();
            m.expect = Expect::Fail("symbol in no section".into(), if only { strange } else { vec![] });
        } else if !chosen.is_empty() {
            let only = chosen.len() == 1 && m.duplicates.is_empty() && m.plain_relocations();
            m.expect = Expect::Fail("indirect function".into(), if only { chosen } else { vec![] });
        } else if useless {
            m.expect = Expect::Fail("useless relocation".into(), vec![]);
        } else if m.sections() > 0xff00 {
            m.expect = Expect::Fail("too many sections".into(), vec![]);
        } else if !m.duplicates.is_empty() {
            m.expect = Expect::Fail("multiple strong definitions".into(), m.duplicates[..1].to_vec());
            if m.duplicates.len() > 1 { m.expect = Expect::Fail("multiple strong definitions".into(), vec![]); }
            if !m.undefined.is_empty() { m.expect = Expect::Fail("duplicate and undefined symbols".into(), vec![]); }
        } else if !m.undefined.is_empty() {
            // the only reason to fail, unless a relocation is another one
            let sure = m.plain_relocations();
            m.expect = Expect::Fail("undefined symbols".into(), if sure { m.undefined.clone() } else { vec![] });
        } else {
            m.expect = m.relocation_ranges();
            if m.sections() > 0xfe00 && m.expect == Expect::Ok { m.expect = Expect::Either("nearly too many sections".into()); }
            if m.expect == Expect::Ok && m.objs.iter().any(|l| l.o.secs.iter().any(|s| s.flags & A != 0 && crate::gen::RESERVED.contains(&&s.name[..]))) { m.expect = Expect::Either("a section with a name of the linker's own".into()); }
        }
        m
    }

    /// Where a symbol may end up: exact for absolute and unresolved weak symbols, else anywhere in the
    /// low 256 MiB, where a fixed-address executable of this size has to live.
    fn span(&self, oi: usize, si: usize) -> Option<(i128, i128)> {
        const IMG: (i128, i128) = (0x1000, 0x1000_0000);
        let o = &self.objs[oi].o;
        if si == 0 { return Some((0, 0)); }
        let y = o.syms.get(si)?;
        if y.shndx == 0 || y.bind != LOCAL {
            if y.bind == LOCAL { return if nothing(y) { Some((0, 0)) } else { None }; }
            return match self.binds.get(&y.name) {
                Some(Bind::Def(a, b)) => self.def_span(*a, *b),
                Some(Bind::Zero) => Some((0, 0)),
                _ => Some(IMG),
            };
        }
        self.def_span(oi, si)
    }
    fn def_span(&self, oi: usize, si: usize) -> Option<(i128, i128)> {
        let o = &self.objs[oi].o;
        let y = &o.syms[si];
        match y.shndx {
            0xfff1 => Some((y.value as i64 as i128, y.value as i64 as i128)),
            0xfff2 => Some((0x1000, 0x1000_0000)),
            n => {
                let s = o.secs.get(n as usize)?;
                let v = y.value as i64 as i128;
                if v.abs() > 0x100_0000 { return None; }
                Some(if s.flags & A != 0 { (0x1000, 0x1000_0000) } else { (0, 0x1000_0000) })
            }
        }
    }

    /// Only types of relocation that are known to be supported.
    fn plain_relocations(&self) -> bool {
        self.objs.iter().all(|l| l.o.secs.iter().all(|s| s.typ != SHT_REL) && l.o.rels.iter().all(|r| r.sym < l.o.syms.len() && r.sec < l.o.secs.len() && [R_NONE, R_64, R_32, R_32S, R_PC32, R_PLT32, R_GOTPCREL, R_GOTPCRELX, R_REX_GOTPCRELX, R_GOT32, R_TLSGD, R_GOTTPOFF, R_TPOFF32].contains(&r.typ)))
    }

    /// How many sections the inputs ask for by name.
    fn sections(&self) -> usize {
        let few: usize = self.objs.iter().map(|l| l.o.secs.len()).sum();
        if few < 0xf000 { return few; }
        let names: HashSet<&str> = self.objs.iter().flat_map(|l| l.o.secs.iter().filter(|s| s.typ == SHT_PROGBITS && s.flags & A != 0).map(|s| &s.name[..])).collect();
        names.len()
    }

    /// Does every relocated value fit its field? Only clear-cut cases are decided.
    fn relocation_ranges(&self) -> Expect {
        let mut e = Expect::Ok;
        for (oi, l) in self.objs.iter().enumerate() {
            for r in &l.o.rels {
                if r.sec >= l.o.secs.len() { e = Expect::Either(format!("relocation section of {}", l.path)); continue; }
                let who = || format!("relocation type {} at {}+{:#x} of {}", r.typ, l.o.secs[r.sec].name, r.off, l.path);
                if r.typ == R_NONE { continue; }
                let bound = l.o.syms.get(r.sym).filter(|y| y.bind != LOCAL).and_then(|y| self.binds.get(&y.name));
                if let (R_TPOFF32, Some(Bind::Import(..))) = (r.typ, bound) { return Expect::Fail(format!("not known before the program runs: {}", who()), vec![]); }
                if let (R_TLSGD | R_GOTTPOFF | R_TPOFF32, Some(Bind::Zero)) = (r.typ, bound) { e = Expect::Either(who()); continue; }
                let (slo, shi) = match self.span(oi, r.sym) { Some(x) => x, None => { e = Expect::Either(who()); continue; } };
                let (lo, hi) = (slo + r.addend as i128, shi + r.addend as i128);
                let alloc = l.o.secs[r.sec].flags & A != 0;
                let p = if alloc { (0x1000i128, 0x1000_0000i128) } else { (0, 0x1000_0000) };
                let rel = (lo - p.1, hi - p.0);
                let (v, f) = match r.typ {
                    R_64 => continue,
                    R_32 => ((lo, hi), (0i128, u32::MAX as i128)),
                    R_32S => ((lo, hi), (i32::MIN as i128, i32::MAX as i128)),
                    R_PC32 | R_PLT32 => (rel, (i32::MIN as i128, i32::MAX as i128)),
                    R_TPOFF32 | R_GOTTPOFF | R_TLSGD | R_GOTPCREL | R_GOT32 if r.addend.abs() < 1 << 20 => continue,
                    R_GOTPCRELX | R_REX_GOTPCRELX => {
                        // the slot always fits; where a relaxed form does not, it is not relaxed
                        continue;
                    }
                    _ => { e = Expect::Either(who()); continue; }
                };
                if v.1 < f.0 || v.0 > f.1 { return Expect::Fail(format!("relocation overflow: {}", who()), vec![]); }
                if v.0 < f.0 || v.1 > f.1 { e = Expect::Either(who()); }
            }
        }
        e
    }

    pub fn search(t: &Tree, cwd: &str, dirs: &[String], name: &str) -> Option<String> {
        let isfile = |p: &str| resolve(t, cwd, p).map(|c| matches!(t.get(&c), Some(Node::File { .. }))).unwrap_or(false);
        if isfile(name) { return Some(name.into()); }
        for kind in ["so", "a"] {
            for d in dirs {
                let p = if name.starts_with('/') { name.to_string() } else { format!("{}/{}", d, name) };
                if isfile(&p) { return Some(p); }
                let p = format!("{}/lib{}.{}", d, name, kind);
                if isfile(&p) { return Some(p); }
            }
        }
        None
    }

    /// Global symbol resolution over the objects linked so far.
    fn bind(&mut self, lib_defs: &HashMap<String, (usize, usize)>) {
        self.binds.clear();
        self.undefined.clear();
        self.duplicates.clear();
        let mut strong_ref: BTreeMap<String, bool> = BTreeMap::new();
        let mut defs: BTreeMap<String, ((usize, usize), u8)> = BTreeMap::new();
        self.commons.clear();
        // a strong definition beats a tentative one, which beats a weak one; the first of a kind is kept
        let rank = |s: &PSym| if s.shndx == 0xfff2 { 1u8 } else if s.bind == WEAK { 0 } else { 2 };
        for (oi, l) in self.objs.iter().enumerate() {
            for (si, s) in l.o.syms.iter().enumerate() {
                if s.bind == LOCAL || s.name.is_empty() { continue; }
                let r = strong_ref.entry(s.name.clone()).or_insert(false);
                if s.shndx == 0 { if s.bind == GLOBAL { *r = true; } continue; }
                let k = rank(s);
                if k == 1 {
                    let c = self.commons.entry(s.name.clone()).or_insert((0, 1));
                    *c = (c.0.max(s.size), c.1.max(s.value));
                }
                match defs.get(&s.name) {
                    None => { defs.insert(s.name.clone(), ((oi, si), k)); }
                    Some((_, b)) => {
                        if *b == 2 && k == 2 { if !self.duplicates.contains(&s.name) { self.duplicates.push(s.name.clone()); } }
                        else if k > *b { defs.insert(s.name.clone(), ((oi, si), k)); }
                    }
                }
            }
        }
        self.commons.retain(|n, _| defs[n].1 == 1);
        let special = |n: &str, objs: &[LObj]| {
            let has = |sec: &str| objs.iter().any(|l| l.o.secs.iter().any(|s| s.name == sec));
            match n {
                "_GLOBAL_OFFSET_TABLE_" => true,
                "__init_array_start" | "__init_array_end" => has(".init_array"),
                "__fini_array_start" | "__fini_array_end" => has(".fini_array"),
                "__preinit_array_start" | "__preinit_array_end" => has(".preinit_array"),
                _ => false,
            }
        };
        for (n, strong) in strong_ref {
            if let Some((d, _)) = defs.get(&n) { self.binds.insert(n, Bind::Def(d.0, d.1)); }
            else if special(&n, &self.objs) {}
            else if let Some(l) = lib_defs.get(&n) { self.binds.insert(n, Bind::Import(l.0, l.1)); }
            else if strong { self.undefined.push(n); }
            else { self.binds.insert(n, Bind::Zero); }
        }
    }
}

pub fn good_machine(b: &[u8]) -> bool { b.get(..7).map(|x| x == [0x7f, b'E', b'L', b'F', 2, 1, 1]).unwrap_or(false) && g16(b, 18) == Some(62) }
