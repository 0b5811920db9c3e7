From 107163c0d63e6455cdc7d5f214bdb9dc8f695b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:48 +0000
Subject: [PATCH 01/50] fix: apply the ELF symbol resolution rules to
 definitions and references

A reference could overwrite an existing weak definition, a definition that
met an undefined symbol only got its section index, and the losing
definition of a name stayed registered in its chunk, so the symbol's value
was patched twice.
---
 src/elf.rs              | 21 ++++++++++++++++++---
 src/elf/chunk.rs        |  4 ++++
 src/elf/symbol_table.rs | 22 +++++++++++++++++++---
 3 files changed, 41 insertions(+), 6 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 0f4416c..07c9c41 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -145,6 +145,8 @@ pub struct Writer<'d> {
     dyn_rels: Vec<Rela>,
     plt_rels: Vec<Rela>,
     sections: Vec<SectionPtr<'d>>,
+    // where the current definition of each symbol lives
+    definitions: HashMap<SymbolRef, SectionRef<'d>>,
     got_len: usize,
     got_plt: HashMap<SymbolRef, usize>,
     dyn_entries: Vec<(DynTag, u64)>,
@@ -351,6 +353,7 @@ impl<'d> Writer<'d> {
             dyn_rels: vec![],
             plt_rels: vec![],
             sections,
+            definitions: Default::default(),
             // first entry reserved
             got_len: 1,
             got_plt: Default::default(),
@@ -430,11 +433,12 @@ impl<'d> Writer<'d> {
 
     fn add_symbol_inner<'s>(
         mut elf_sym: Sym,
-        section: Option<SectionRef>,
+        section: Option<SectionRef<'d>>,
         name: &'s str,
         reference: &'d Path,
         symbol_names: &mut StringTable,
         symbols: &mut SymbolTable<'d>,
+        definitions: &mut HashMap<SymbolRef, SectionRef<'d>>,
     ) -> Result<SymbolRef, ErrorType> {
         let name: Name = name.to_string().into();
         let hash = name.elf_hash();
@@ -442,12 +446,21 @@ impl<'d> Writer<'d> {
         let st_name = symbol_names.get_or_create(name.clone()).offset as u32;
         elf_sym.st_name = st_name;
         log::trace!("name: '{}' -> sym: {:?}", &name as &str, elf_sym);
+        let is_definition = symbols.is_better_definition(elf_sym);
         let r = symbols
             .add_symbol(elf_sym, hash, gnu_hash, reference)
             .map_err(|e| ErrorType::Other(format!("{} {}", &name as &str, e)))?;
+        if !is_definition {
+            return Ok(r);
+        }
+        // the definition that was in use until now lost
+        if let Some(old) = definitions.remove(&r) {
+            old.section.write().chunk_mut(old.chunk).remove_symbol(r);
+        }
         if let Some(section_ref) = section {
             if elf_sym.st_shndx != SHN_ABS as u16 {
                 section_ref.section.write().chunk_mut(section_ref.chunk).add_symbol(r);
+                definitions.insert(r, section_ref);
             }
         }
         Ok(r)
@@ -456,7 +469,7 @@ impl<'d> Writer<'d> {
     pub fn add_symbol<'s>(
         &mut self,
         elf_sym: Sym,
-        sec_ref: Option<SectionRef>,
+        sec_ref: Option<SectionRef<'d>>,
         name: &'s str,
         reference: &'d Path,
     ) -> Result<Option<SymbolRef>, ErrorType> {
@@ -467,6 +480,7 @@ impl<'d> Writer<'d> {
             reference,
             self.sym_str_section.write().inner_mut::<StringTable>().unwrap(),
             self.sym_section.write().inner_mut::<SymbolTable<'d>>().unwrap(),
+            &mut self.definitions,
         )
         .map(Some)
     }
@@ -474,7 +488,7 @@ impl<'d> Writer<'d> {
     pub fn add_dyn_symbol<'s>(
         &mut self,
         mut elf_sym: Sym,
-        sec_ref: Option<SectionRef>,
+        sec_ref: Option<SectionRef<'d>>,
         name: &'s str,
         reference: &'d Path,
     ) -> Result<Option<SymbolRef>, ErrorType> {
@@ -487,6 +501,7 @@ impl<'d> Writer<'d> {
             reference,
             self.dyn_sym_str_section.write().inner_mut::<StringTable>().unwrap(),
             self.dyn_sym_section.write().inner_mut::<SymbolTable<'d>>().unwrap(),
+            &mut Default::default(),
         );
         if let Ok(dyn_ref) = r {
             if let Some(entry) =
diff --git a/src/elf/chunk.rs b/src/elf/chunk.rs
index c0ab8c0..40fa35d 100644
--- a/src/elf/chunk.rs
+++ b/src/elf/chunk.rs
@@ -24,6 +24,10 @@ impl Chunk {
         self.symbols.insert(sym_ref);
     }
 
+    pub fn remove_symbol(&mut self, sym_ref: SymbolRef) {
+        self.symbols.remove(&sym_ref);
+    }
+
     pub fn add_relocation(&mut self, reloc: Rela, sym_ref: SymbolRef) {
         self.relocations.push((reloc, sym_ref));
     }
diff --git a/src/elf/symbol_table.rs b/src/elf/symbol_table.rs
index 9cee311..bd52733 100644
--- a/src/elf/symbol_table.rs
+++ b/src/elf/symbol_table.rs
@@ -112,14 +112,18 @@ impl<'p> SymbolTable<'p> {
                     );
                     return Err(Error::AlreadyDefined(old_sym.reference().into()));
                 }
-                if !old_sym.higher_bind_than(new_sym) {
+                if new_sym.is_undefined() {
+                    // a reference never changes a definition, but a strong reference to a symbol
+                    // that has only been referenced weakly so far makes it required
+                    if old_sym.is_undefined() && !old_sym.higher_bind_than(new_sym) {
+                        old_sym.st_info = (new_sym.st_bind() << 4) | old_sym.st_type();
+                    }
+                } else if old_sym.is_undefined() || !old_sym.higher_bind_than(new_sym) {
                     old_sym.st_info = new_sym.st_info;
                     old_sym.st_other = new_sym.st_other;
                     old_sym.st_shndx = new_sym.st_shndx;
                     old_sym.st_value = new_sym.st_value;
                     old_sym.st_size = new_sym.st_size;
-                } else if old_sym.st_shndx == SHN_UNDEF as u16 {
-                    old_sym.st_shndx = new_sym.st_shndx;
                 }
             }
             Entry::Vacant(v) => {
@@ -132,6 +136,18 @@ impl<'p> SymbolTable<'p> {
         Ok(SymbolRef::Named(st_name))
     }
 
+    /// Whether adding `elf_sym` makes it the definition of its name.
+    pub fn is_better_definition(&self, elf_sym: Sym) -> bool {
+        let new_sym = Symbol::new(elf_sym, 0, 0, Path::new(""));
+        !new_sym.is_undefined()
+            && match self.symbols.get(&elf_sym.st_name) {
+                Some(old_sym) if new_sym.st_type() != STT_SECTION => {
+                    old_sym.is_undefined() || !old_sym.higher_bind_than(new_sym)
+                }
+                _ => true,
+            }
+    }
+
     pub fn get(&self, s: SymbolRef) -> Option<&Symbol<'_>> {
         match s {
             SymbolRef::Named(n) => self.symbols.get(&n),
-- 
2.43.0


From 9b56d9a8c097c9d05c526cfdc6ccb739468b84db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:26:32 +0000
Subject: [PATCH 02/50] fix: keep the local symbols of different objects apart

Local symbols were merged by name across objects, and by name, type, section
and size within one, so relocations against same-named static functions or
variables were bound to another one's address.
---
 src/elf.rs              | 12 +++++++++---
 src/elf/symbol_table.rs | 43 ++++++++++++++++++++++++-----------------
 src/lib.rs              | 37 ++++++-----------------------------
 3 files changed, 40 insertions(+), 52 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 07c9c41..c15cdf4 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -702,7 +702,9 @@ impl<'d> Writer<'d> {
                 if let Some(s) = symbol_names.get("__init_array_end") {
                     let sym_ref = SymbolRef::Named(s.offset as u32);
                     let mut symbols = as_mut_sym_tab(&self.sym_section);
-                    symbols.get_mut(sym_ref).unwrap().st_value = section.size_on_disk();
+                    if let Some(symbol) = symbols.get_mut(sym_ref) {
+                        symbol.st_value = section.size_on_disk();
+                    }
                     let chunk_index = section.last_chunk_index();
                     section.chunk_mut(chunk_index).add_symbol(sym_ref);
                 }
@@ -713,7 +715,9 @@ impl<'d> Writer<'d> {
                 if let Some(s) = symbol_names.get("__fini_array_end") {
                     let sym_ref = SymbolRef::Named(s.offset as u32);
                     let mut symbols = as_mut_sym_tab(&self.sym_section);
-                    symbols.get_mut(sym_ref).unwrap().st_value = section.size_on_disk();
+                    if let Some(symbol) = symbols.get_mut(sym_ref) {
+                        symbol.st_value = section.size_on_disk();
+                    }
                     let chunk_index = section.last_chunk_index();
                     section.chunk_mut(chunk_index).add_symbol(sym_ref);
                 }
@@ -946,7 +950,9 @@ impl<'d> Writer<'d> {
             self.sym_str_section.read().inner::<StringTable>().unwrap().get("_start")
         {
             let symbols = as_sym_tab(&self.sym_section);
-            self.eh.e_entry = symbols[SymbolRef::Named(entry.offset as u32)].st_value;
+            if let Some(start) = symbols.get(SymbolRef::Named(entry.offset as u32)) {
+                self.eh.e_entry = start.st_value;
+            }
         }
         self.eh.e_shnum = self.sections.len() as u16;
         self.eh.e_phnum = self.program_headers.len() as u16;
diff --git a/src/elf/symbol_table.rs b/src/elf/symbol_table.rs
index bd52733..fd462bf 100644
--- a/src/elf/symbol_table.rs
+++ b/src/elf/symbol_table.rs
@@ -24,6 +24,8 @@ pub enum SymbolRef {
     Named(u32),
     // section + number
     Section(u16, usize),
+    // number
+    Local(usize),
 }
 
 impl SymbolRef {
@@ -31,7 +33,8 @@ impl SymbolRef {
         if let Self::Named(n) = self {
             *n
         } else {
-            // SECTION symbols don't have a name
+            // SECTION symbols don't have a name, and the name of a local symbol doesn't
+            // identify it
             0
         }
     }
@@ -47,6 +50,8 @@ pub enum Error {
 pub struct SymbolTable<'p> {
     symbols: HashMap<u32, Symbol<'p>>,
     section_syms: HashMap<u16, Vec<Symbol<'p>>>,
+    // local symbols are private to their object, so their names may repeat
+    locals: Vec<Symbol<'p>>,
     num_locals: usize,
     is_dynamic: bool,
 }
@@ -56,6 +61,7 @@ impl Default for SymbolTable<'_> {
         let mut table = Self {
             symbols: Default::default(),
             section_syms: Default::default(),
+            locals: Default::default(),
             num_locals: 0,
             is_dynamic: false,
         };
@@ -96,6 +102,11 @@ impl<'p> SymbolTable<'p> {
                 - 1;
             return Ok(SymbolRef::Section(elf_sym.st_shndx, len));
         }
+        if is_private(&new_sym) {
+            self.num_locals += 1;
+            self.locals.push(new_sym);
+            return Ok(SymbolRef::Local(self.locals.len() - 1));
+        }
         match self.symbols.entry(st_name) {
             Entry::Occupied(mut s) => {
                 let old_sym = s.get_mut();
@@ -141,7 +152,7 @@ impl<'p> SymbolTable<'p> {
         let new_sym = Symbol::new(elf_sym, 0, 0, Path::new(""));
         !new_sym.is_undefined()
             && match self.symbols.get(&elf_sym.st_name) {
-                Some(old_sym) if new_sym.st_type() != STT_SECTION => {
+                Some(old_sym) if new_sym.st_type() != STT_SECTION && !is_private(&new_sym) => {
                     old_sym.is_undefined() || !old_sym.higher_bind_than(new_sym)
                 }
                 _ => true,
@@ -152,6 +163,7 @@ impl<'p> SymbolTable<'p> {
         match s {
             SymbolRef::Named(n) => self.symbols.get(&n),
             SymbolRef::Section(s, i) => self.section_syms.get(&s).map(|s| &s[i]),
+            SymbolRef::Local(i) => self.locals.get(i),
         }
     }
 
@@ -159,31 +171,19 @@ impl<'p> SymbolTable<'p> {
         match s {
             SymbolRef::Named(n) => self.symbols.get_mut(&n),
             SymbolRef::Section(s, i) => self.section_syms.get_mut(&s).map(|s| &mut s[i]),
+            SymbolRef::Local(i) => self.locals.get_mut(i),
         }
     }
 
     pub fn sorted(&self) -> Vec<&Symbol<'p>> {
-        let mut syms: Vec<&Symbol<'p>> = self.symbols.values().collect();
-        syms.sort_by(|s1, s2| sort_symbols_func(s1, s2));
-        syms
-    }
-
-    pub fn sorted_mut(&mut self) -> Vec<&mut Symbol<'p>> {
-        let mut syms: Vec<&mut Symbol<'p>> = self.symbols.values_mut().collect();
+        let mut syms: Vec<&Symbol<'p>> =
+            self.symbols.values().chain(self.locals.iter()).collect();
         syms.sort_by(|s1, s2| sort_symbols_func(s1, s2));
         syms
     }
 
-    /// Useful for those cases where we need quick access to a symbol with a given
-    /// st_name, and we want to know its index in the final symbol table.
-    pub fn sorted_with_indexes(&mut self) -> HashMap<u32, (usize, &mut Symbol<'p>)> {
-        let mut syms: Vec<&mut Symbol<'p>> = self.symbols.values_mut().collect();
-        syms.sort_by(|s1, s2| sort_symbols_func(s1, s2));
-        syms.into_iter().enumerate().map(|(i, s)| (s.st_name, (i, s))).collect()
-    }
-
     pub fn total_len(&self) -> usize {
-        self.symbols.len() * size_of::<Sym>()
+        (self.symbols.len() + self.locals.len()) * size_of::<Sym>()
     }
 
     pub fn chunk(&self) -> Chunk {
@@ -261,6 +261,12 @@ impl<'p> Synthesized<'p> for SymbolTable<'p> {
     }
 }
 
+/// Whether `sym` can only be referred to by the object it comes from. The null symbol doesn't
+/// count, because it is the same one in all objects.
+fn is_private(sym: &Symbol) -> bool {
+    sym.is_local() && !(sym.st_name == 0 && sym.is_undefined())
+}
+
 fn calculate_bloom(bloom: &mut [u64], hash: u32, elfclass_bits: u32, bloom_shift: u32) {
     let index = ((hash / elfclass_bits) % bloom.len() as u32) as usize;
     bloom[index] |= 1_u64 << (hash % elfclass_bits);
@@ -274,6 +280,7 @@ impl<'s> Index<SymbolRef> for SymbolTable<'s> {
         match index {
             SymbolRef::Named(n) => &self.symbols[&n],
             SymbolRef::Section(s, i) => &self.section_syms[&s][i],
+            SymbolRef::Local(i) => &self.locals[i],
         }
     }
 }
diff --git a/src/lib.rs b/src/lib.rs
index 7dbd032..ced29e4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -8,7 +8,7 @@ mod utils;
 use error::{Error, ErrorExt, ErrorType};
 use goblin::{
     archive::Archive,
-    elf::{sym::Sym, Elf},
+    elf::Elf,
     elf64::{
         reloc::Rela,
         section_header::{
@@ -19,37 +19,12 @@ use goblin::{
 use std::{
     collections::{HashMap, HashSet},
     fs::read,
-    hash::{Hash, Hasher},
     path::{Path, PathBuf},
 };
 
 const SKIPPED_SECTIONS: &[u32] =
     &[SHT_SYMTAB, SHT_DYNSYM, SHT_STRTAB, SHT_RELA, SHT_DYNAMIC, SHT_REL, SHT_SHLIB];
 
-struct Symbol(Sym);
-
-impl PartialEq for Symbol {
-    fn eq(&self, s2: &Self) -> bool {
-        self.0.st_name == s2.0.st_name
-            && self.0.st_info == s2.0.st_info
-            && self.0.st_other == s2.0.st_other
-            && self.0.st_shndx == s2.0.st_shndx
-            && self.0.st_size == s2.0.st_size
-    }
-}
-
-impl Eq for Symbol {}
-
-impl Hash for Symbol {
-    fn hash<H: Hasher>(&self, state: &mut H) {
-        self.0.st_name.hash(state);
-        self.0.st_info.hash(state);
-        self.0.st_other.hash(state);
-        self.0.st_shndx.hash(state);
-        self.0.st_size.hash(state);
-    }
-}
-
 pub struct Input<'p, 'd> {
     path: &'p Path,
     data: &'d [u8],
@@ -59,7 +34,8 @@ pub struct ElfObject<'i, 'p, 'd, 'e> {
     input: &'i Input<'p, 'd>,
     elf: Elf<'e>,
     section_relocations: HashMap<usize, elf::SectionRef<'p>>,
-    symbols: HashMap<Symbol, elf::SymbolRef>,
+    // the index of each symbol in the object -> where it ended up
+    symbols: HashMap<usize, elf::SymbolRef>,
 }
 
 impl<'p, 'd> Input<'p, 'd> {
@@ -104,14 +80,14 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
     pub fn process_symbols(&mut self, writer: &mut elf::Writer<'p>) -> Result<(), Error<'p>> {
         let path = &self.input.path;
         let elf = &self.elf;
-        for symbol in &elf.syms {
+        for (i, symbol) in elf.syms.iter().enumerate() {
             let name = get_symbol_name(elf, symbol.st_name).map_path_err(path)?;
             let sec_ref = self.section_relocations.get(&(symbol.st_shndx as usize));
             let symbol_ref = writer
                 .add_symbol(symbol.into(), sec_ref.cloned(), name, path)
                 .map_path_err(path)?;
             if let Some(sym) = symbol_ref {
-                self.symbols.insert(Symbol(symbol), sym);
+                self.symbols.insert(i, sym);
             }
         }
         Ok(())
@@ -121,13 +97,12 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
         let elf = &self.elf;
         for (section_index, rels) in &elf.shdr_relocs {
             for rel in rels.iter().filter(|r| r.r_sym != 0) {
-                let symbol = &elf.syms.get(rel.r_sym as usize).unwrap();
                 let index = if let Some(sec) = self.section_relocations.get(&(section_index - 1)) {
                     sec.clone()
                 } else {
                     continue;
                 };
-                let symbol = if let Some(sym) = self.symbols.get(&Symbol(*symbol)) {
+                let symbol = if let Some(sym) = self.symbols.get(&rel.r_sym) {
                     sym
                 } else {
                     continue;
-- 
2.43.0


From 2c14ed7db8847eef73284e807af2f40ee28399b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:26:33 +0000
Subject: [PATCH 03/50] fix: apply relocations to the section that sh_info
 names

Relocation sections needn't follow the section they apply to, and relocations
without a symbol (their value is just the addend) were dropped.
---
 src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ced29e4..d73abd7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -96,8 +96,14 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
     pub fn process_relocations(&self, writer: &mut elf::Writer<'p>) -> Result<(), Error<'p>> {
         let elf = &self.elf;
         for (section_index, rels) in &elf.shdr_relocs {
-            for rel in rels.iter().filter(|r| r.r_sym != 0) {
-                let index = if let Some(sec) = self.section_relocations.get(&(section_index - 1)) {
+            // `sh_info` is the section that the relocations apply to, which needn't be the one
+            // right before them
+            let target = match elf.section_headers.get(*section_index) {
+                Some(sh) => sh.sh_info as usize,
+                None => continue,
+            };
+            for rel in rels.iter() {
+                let index = if let Some(sec) = self.section_relocations.get(&target) {
                     sec.clone()
                 } else {
                     continue;
-- 
2.43.0


From 279abf1ae62c0cd5f493e8408e28a51c7e326042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:27:55 +0000
Subject: [PATCH 04/50] fix: lay sections out by their alignment and size in
 memory

Neither the pieces of a section nor the sections of a segment were aligned,
pieces of .bss were all put at its start, sections without contents could end
up in the middle of a segment and sections that aren't loaded over the
headers, and PT_DYNAMIC and PT_INTERP had the address of another section.
---
 src/elf.rs         | 64 ++++++++++++++++++++++++++++------------------
 src/elf/chunk.rs   | 12 ++++++++-
 src/elf/section.rs | 43 ++++++++++++++++++++++++++-----
 3 files changed, 86 insertions(+), 33 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index c15cdf4..1d283dd 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -7,8 +7,8 @@ use goblin::elf64::{
     reloc::{r_type, Rela, *},
     section_header::{
         SectionHeader, SHF_ALLOC, SHF_EXECINSTR, SHF_WRITE, SHN_ABS, SHN_UNDEF, SHT_DYNAMIC,
-        SHT_DYNSYM, SHT_FINI_ARRAY, SHT_GNU_HASH, SHT_HASH, SHT_INIT_ARRAY, SHT_PROGBITS, SHT_RELA,
-        SHT_STRTAB,
+        SHT_DYNSYM, SHT_FINI_ARRAY, SHT_GNU_HASH, SHT_HASH, SHT_INIT_ARRAY, SHT_NOBITS, SHT_PROGBITS,
+        SHT_RELA, SHT_STRTAB,
     },
     sym::Sym,
 };
@@ -17,7 +17,7 @@ use parking_lot::{
     RwLockReadGuard as RGuard, RwLockWriteGuard as WGuard,
 };
 use std::{
-    cmp::Ordering,
+    cmp::{max, Ordering},
     collections::HashMap,
     convert::TryInto,
     fs::File,
@@ -389,12 +389,13 @@ impl<'d> Writer<'d> {
     ) -> SectionRef<'d> {
         let entry =
             self.shstr_section.write().inner_mut::<StringTable>().unwrap().get_or_create(name);
-        let (section, chunk) = if entry.new {
+        let section = if entry.new {
             let sh = SectionHeader {
                 sh_name: entry.offset as u32,
                 sh_type: sh.sh_type,
                 sh_flags: sh.sh_flags as u64,
-                sh_size: sh.sh_size,
+                // grows as chunks are added
+                sh_size: 0,
                 sh_link: sh.sh_link,
                 sh_info: sh.sh_info,
                 sh_entsize: sh.sh_entsize,
@@ -403,20 +404,17 @@ impl<'d> Writer<'d> {
                 sh_addr: 0,
                 sh_offset: 0,
             };
-            let sh = Section::builder(sh).with_chunk(data.unwrap_or_default()).build();
+            let sh = Section::new(sh);
             self.sections.push(Arc::clone(&sh));
-            (sh, 0)
+            sh
         } else {
-            let section_ptr = Arc::clone(&self.sections[entry.index]);
-            let mut section = self.sections[entry.index].write();
-            section.sh_size += sh.sh_size;
-            section.sh_addralign = std::cmp::max(section.sh_addralign, sh.sh_addralign);
-            let chunk = if let Some(data) = data {
-                section.add_chunk(Chunk::from(data))
-            } else {
-                section.last_chunk_index()
-            };
-            (section_ptr, chunk)
+            Arc::clone(&self.sections[entry.index])
+        };
+        let chunk = {
+            let mut section = section.write();
+            section.sh_flags |= sh.sh_flags & (SHF_ALLOC | SHF_WRITE | SHF_EXECINSTR) as u64;
+            section.sh_addralign = max(section.sh_addralign, sh.sh_addralign);
+            section.add_input_chunk(data, sh.sh_size, sh.sh_addralign)
         };
         SectionRef { section, chunk }
     }
@@ -1043,7 +1041,6 @@ impl<'d> Writer<'d> {
         let mut flags = 0;
         let mut program_header = None;
         for sh in self.sections.iter_mut().skip(1) {
-            let old_p_vaddr = self.p_vaddr;
             let mut sh = sh.write();
             if sh.sh_flags != flags {
                 // push old program header
@@ -1064,12 +1061,20 @@ impl<'d> Writer<'d> {
                 }
                 flags = sh.sh_flags;
             } else {
-                sh.sh_offset = post_inc(&mut self.file_offset, sh.size_on_disk());
                 if let Some(ph) = program_header.as_mut() {
-                    ph.p_filesz += sh.size_on_disk();
-                    ph.p_memsz += sh.sh_size;
+                    // the file offset has to stay congruent with the address
+                    let padding = round_to(self.p_vaddr, sh.sh_addralign) - self.p_vaddr;
+                    if sh.sh_type != SHT_NOBITS {
+                        self.file_offset += padding;
+                    }
+                    self.p_vaddr += padding;
                     sh.set_address(self.p_vaddr);
                     self.p_vaddr += sh.sh_size;
+                    ph.p_memsz = self.p_vaddr - ph.p_vaddr;
+                }
+                sh.sh_offset = post_inc(&mut self.file_offset, sh.size_on_disk());
+                if let Some(ph) = program_header.as_mut() {
+                    ph.p_filesz = self.file_offset - ph.p_offset;
                 }
             }
             let sh = WGuard::downgrade(sh);
@@ -1085,8 +1090,8 @@ impl<'d> Writer<'d> {
                         p_flags: PF_R | write,
                         p_align: sh.sh_addralign,
                         p_offset: sh.sh_offset,
-                        p_vaddr: old_p_vaddr,
-                        p_paddr: old_p_vaddr,
+                        p_vaddr: sh.sh_addr,
+                        p_paddr: sh.sh_addr,
                         p_filesz: sh.size_on_disk(),
                         p_memsz: sh.sh_size,
                     },
@@ -1145,7 +1150,9 @@ fn get_load_program_header(
         let extra_data = extra_data.take().unwrap_or_default();
         let write = if sh.sh_flags as u32 & SHF_WRITE == SHF_WRITE { PF_W } else { 0 };
         let exec = if sh.sh_flags as u32 & SHF_EXECINSTR == SHF_EXECINSTR { PF_X } else { 0 };
-        *p_vaddr = round_to(*p_vaddr, PAGE_ALIGNMENT);
+        *p_vaddr = round_to(*p_vaddr, max(PAGE_ALIGNMENT, sh.sh_addralign));
+        // the headers are only followed by the first section once that is aligned
+        let extra_data = round_to(*p_vaddr + extra_data, sh.sh_addralign) - *p_vaddr;
         sh.set_address(*p_vaddr + extra_data);
         *file_offset = round_to(*file_offset, PAGE_ALIGNMENT);
         let sh_size_on_disk = sh.size_on_disk() + extra_data;
@@ -1241,8 +1248,15 @@ fn post_inc(v: &mut u64, inc: u64) -> u64 {
 fn section_cmp(s1: &SectionPtr, s2: &SectionPtr) -> Ordering {
     let s1 = s1.read();
     let s2 = s2.read();
+    let is_loaded = |s: &SectionHeader| s.sh_flags as u32 & SHF_ALLOC == SHF_ALLOC;
+    if is_loaded(&s1) != is_loaded(&s2) {
+        return is_loaded(&s2).cmp(&is_loaded(&s1));
+    }
     match s1.sh_flags.cmp(&s2.sh_flags) {
-        Ordering::Equal => s1.sh_addralign.cmp(&s2.sh_addralign).reverse(),
+        // what takes no space on disk has to be at the end of its segment
+        Ordering::Equal => (s1.sh_type == SHT_NOBITS)
+            .cmp(&(s2.sh_type == SHT_NOBITS))
+            .then(s1.sh_addralign.cmp(&s2.sh_addralign).reverse()),
         // no flags should come last
         o => {
             if s1.sh_flags == 0 {
diff --git a/src/elf/chunk.rs b/src/elf/chunk.rs
index 40fa35d..776a2fd 100644
--- a/src/elf/chunk.rs
+++ b/src/elf/chunk.rs
@@ -10,6 +10,8 @@ use crate::elf::{plt_entry_addr, SymbolRef, SymbolTable};
 /// A part of a section.
 pub struct Chunk {
     address: Option<u64>,
+    // where the chunk starts in its section
+    offset: u64,
     data: Vec<u8>,
     symbols: HashSet<SymbolRef>,
     relocations: Vec<(Rela, SymbolRef)>,
@@ -17,7 +19,7 @@ pub struct Chunk {
 
 impl Chunk {
     pub fn new(data: Vec<u8>) -> Self {
-        Self { address: None, data, symbols: Default::default(), relocations: vec![] }
+        Self { address: None, offset: 0, data, symbols: Default::default(), relocations: vec![] }
     }
 
     pub fn add_symbol(&mut self, sym_ref: SymbolRef) {
@@ -68,6 +70,14 @@ impl Chunk {
         self.address = Some(addr);
     }
 
+    pub fn set_offset(&mut self, offset: u64) {
+        self.offset = offset;
+    }
+
+    pub fn offset(&self) -> u64 {
+        self.offset
+    }
+
     pub fn address(&self) -> Option<u64> {
         self.address
     }
diff --git a/src/elf/section.rs b/src/elf/section.rs
index 87e0655..f18e2f7 100644
--- a/src/elf/section.rs
+++ b/src/elf/section.rs
@@ -6,11 +6,14 @@ use crate::elf::{
     SymbolRef,
 };
 
-use goblin::elf64::section_header::{SectionHeader, SHT_NOBITS};
+use goblin::elf64::section_header::{SectionHeader, SHF_EXECINSTR, SHT_NOBITS, SHT_PROGBITS};
 use parking_lot::RwLock;
 use std::sync::Arc;
 
-use super::{CopyRel, SymbolTable};
+use super::{round_to, CopyRel, SymbolTable};
+
+// fills the gaps between code, which may run through them (e.g. `.init`)
+const NOP: u8 = 0x90;
 
 pub type SectionPtr<'p> = Arc<RwLock<Section<'p>>>;
 
@@ -167,6 +170,35 @@ impl<'p> Section<'p> {
         self.chunks.len() - 1
     }
 
+    /// Appends `size` bytes of an input section, aligned to `align`. `data` is `None` if they take
+    /// no space on disk.
+    pub fn add_input_chunk(&mut self, data: Option<Vec<u8>>, size: u64, align: u64) -> usize {
+        let offset = round_to(self.sh_size, align);
+        let filler = if self.sh_flags as u32 & SHF_EXECINSTR == SHF_EXECINSTR { NOP } else { 0 };
+        if self.sh_type == SHT_NOBITS && data.is_some() {
+            // some of the section has contents now, so that all of it has to be on disk
+            self.sh_type = SHT_PROGBITS;
+            let mut end = self.sh_size;
+            for chunk in self.chunks.iter_mut().rev() {
+                let offset = chunk.offset();
+                chunk.resize((end - offset) as usize, 0);
+                end = offset;
+            }
+        }
+        let mut chunk = if self.sh_type == SHT_NOBITS {
+            Chunk::new(vec![])
+        } else {
+            if let Some(last) = self.chunks.last_mut() {
+                let size = (offset - last.offset()) as usize;
+                last.resize(size, filler);
+            }
+            Chunk::new(data.unwrap_or_else(|| vec![0; size as usize]))
+        };
+        chunk.set_offset(offset);
+        self.sh_size = offset + size;
+        self.add_chunk(chunk)
+    }
+
     pub fn last_chunk_index(&self) -> usize {
         self.chunks.len() - 1
     }
@@ -193,17 +225,15 @@ impl<'p> Section<'p> {
 
     pub fn set_address(&mut self, sh_addr: u64) {
         self.sh_addr = sh_addr;
-        let mut base_addr = self.sh_addr;
         for chunk in &mut self.chunks {
-            chunk.set_address(base_addr);
-            base_addr += chunk.len() as u64;
+            chunk.set_address(sh_addr + chunk.offset());
         }
     }
 
     pub fn patch_symbol_values(&mut self, table: &mut crate::elf::SymbolTable) {
-        let mut base_addr = self.sh_addr;
         let sh_index = self.index as u16;
         for chunk in &self.chunks {
+            let base_addr = self.sh_addr + chunk.offset();
             for symbol_ref in chunk.symbols().iter() {
                 if let Some(symbol) = table.get_mut(*symbol_ref) {
                     symbol.st_shndx = sh_index;
@@ -214,7 +244,6 @@ impl<'p> Section<'p> {
                     }
                 }
             }
-            base_addr += chunk.len() as u64;
         }
     }
 
-- 
2.43.0


From e2b801b1b8d35604967c92ef41e78aca4f095ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:27:56 +0000
Subject: [PATCH 05/50] fix: compute the displacement of relaxed GOTPCRELX
 calls and jumps

The relaxed instruction holds its displacement one byte earlier, so every
relaxed call or jump landed one byte short of its target.
---
 src/elf/chunk.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/elf/chunk.rs b/src/elf/chunk.rs
index 776a2fd..206a451 100644
--- a/src/elf/chunk.rs
+++ b/src/elf/chunk.rs
@@ -150,16 +150,18 @@ fn apply_relocation(
             // -2 because the offset points to where we need to patch, but we want to
             // match the other two bytes to tell which instruction we're patching
             let buf = &mut data[offset - 2..];
-            let value: i32 = (s + a - p).try_into().unwrap();
             match buf[..2] {
                 // call *foo@GOTPCREL(%rip) -> call foo nop
                 [0xff, 0x15] => {
+                    // the displacement is one byte earlier than it used to be
+                    let value: i32 = (s + a - p + 1).try_into().unwrap();
                     buf[0] = 0xe8;
                     buf[1..5].as_mut().write_i32::<LittleEndian>(value).unwrap();
                     buf[5] = 0x90;
                 }
                 // jmp *foo@GOTPCREL(%rip) -> jmp foo nop
                 [0xff, 0x25] => {
+                    let value: i32 = (s + a - p + 1).try_into().unwrap();
                     buf[0] = 0xe9;
                     buf[1..5].as_mut().write_i32::<LittleEndian>(value).unwrap();
                     buf[5] = 0x90;
-- 
2.43.0


From 419ce8c7d61923c011c308e9a7ebfbfd5284ddbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:32 +0000
Subject: [PATCH 06/50] fix: group the dynamic symbols by GNU hash bucket

.dynsym was sorted by hash alone, so with more than one bucket the chains of
.gnu.hash missed most of the symbols.
---
 src/elf/symbol_table.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/elf/symbol_table.rs b/src/elf/symbol_table.rs
index fd462bf..1cc0931 100644
--- a/src/elf/symbol_table.rs
+++ b/src/elf/symbol_table.rs
@@ -178,7 +178,9 @@ impl<'p> SymbolTable<'p> {
     pub fn sorted(&self) -> Vec<&Symbol<'p>> {
         let mut syms: Vec<&Symbol<'p>> =
             self.symbols.values().chain(self.locals.iter()).collect();
-        syms.sort_by(|s1, s2| sort_symbols_func(s1, s2));
+        // the GNU hash table needs all the symbols of a bucket to be next to each other
+        let nbuckets = if self.is_dynamic { GnuHashTable::nbuckets(syms.len()) } else { 1 };
+        syms.sort_by(|s1, s2| sort_symbols_func(s1, s2, nbuckets));
         syms
     }
 
@@ -285,12 +287,14 @@ impl<'s> Index<SymbolRef> for SymbolTable<'s> {
     }
 }
 
-// local before global, then compare by gnu hash
-fn sort_symbols_func(s1: &Symbol, s2: &Symbol) -> Ordering {
+// local before global, then compare by bucket, and then by gnu hash
+fn sort_symbols_func(s1: &Symbol, s2: &Symbol, nbuckets: u32) -> Ordering {
     let b1 = if s1.is_local() { 0 } else { 1 };
     let b2 = if s2.is_local() { 0 } else { 1 };
     match b1.cmp(&b2) {
-        Ordering::Equal => s1.gnu_hash().cmp(&s2.gnu_hash()),
+        Ordering::Equal => (s1.gnu_hash() % nbuckets)
+            .cmp(&(s2.gnu_hash() % nbuckets))
+            .then(s1.gnu_hash().cmp(&s2.gnu_hash())),
         c => c,
     }
 }
@@ -382,6 +386,10 @@ pub struct GnuHashTable {
 }
 
 impl GnuHashTable {
+    fn nbuckets(num_symbols: usize) -> u32 {
+        num_symbols as u32 / 8 + 1
+    }
+
     pub fn size(&self) -> usize {
         // header + bloom + buckets + table
         4 * size_of::<u32>()
@@ -397,7 +405,7 @@ impl GnuHashTable {
         let bits = (symbols.len() as u32 - 1) * 12;
         let bloom_size = (bits / elfclass_bits).next_power_of_two();
         let bloom_shift = 26;
-        let nbuckets: u32 = symbols.len() as u32 / 8 + 1;
+        let nbuckets = Self::nbuckets(symbols.len());
         // we always skip the first null symbol. For now, since we don't have
         // any locals in `.dynsym`, we can set this to 1, since we skip 1 symbol only.
         let symbol_offset = 1;
-- 
2.43.0


From 50f31c6c7bbcf03757415e464ecd4c7d68bc27fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:28 +0000
Subject: [PATCH 07/50] fix: make __init_array_end and __fini_array_end end
 their arrays

They pointed past the end when several objects contribute to the array, and
definitions of the linker's special symbols in an object were overwritten.
---
 src/elf.rs | 40 +++++++++++++++++-----------------------
 1 file changed, 17 insertions(+), 23 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 1d283dd..5d8d2ab 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -686,38 +686,32 @@ impl<'d> Writer<'d> {
         if let Some(e) = symbol_names.get("_GLOBAL_OFFSET_TABLE_") {
             let mut symbols = as_mut_sym_tab(&self.sym_section);
             if let Some(s) = symbols.get_mut(SymbolRef::Named(e.offset as u32)) {
-                s.st_shndx = self.got_plt_section.read().index() as u16;
-                s.st_value = got_plt_addr;
+                if s.is_undefined() {
+                    s.st_shndx = self.got_plt_section.read().index() as u16;
+                    s.st_value = got_plt_addr;
+                }
             };
         }
         let skip = [self.sym_str_section.read().sh_name, self.shstr_section.read().sh_name];
         for section in self.sections.iter().filter(|s| !skip.contains(&s.read().sh_name)) {
             let mut section = section.write();
-            if is_some_with(section_names.sh_name(".init_array"), &section.sh_name) {
-                if let Some(s) = symbol_names.get("__init_array_start") {
-                    section.chunk_mut(0).add_symbol(SymbolRef::Named(s.offset as u32));
-                }
-                if let Some(s) = symbol_names.get("__init_array_end") {
-                    let sym_ref = SymbolRef::Named(s.offset as u32);
-                    let mut symbols = as_mut_sym_tab(&self.sym_section);
-                    if let Some(symbol) = symbols.get_mut(sym_ref) {
-                        symbol.st_value = section.size_on_disk();
-                    }
-                    let chunk_index = section.last_chunk_index();
-                    section.chunk_mut(chunk_index).add_symbol(sym_ref);
-                }
+            let bounds = if is_some_with(section_names.sh_name(".init_array"), &section.sh_name) {
+                [("__init_array_start", 0), ("__init_array_end", section.size_on_disk())]
             } else if is_some_with(section_names.sh_name(".fini_array"), &section.sh_name) {
-                if let Some(s) = symbol_names.get("__fini_array_start") {
-                    section.chunk_mut(0).add_symbol(SymbolRef::Named(s.offset as u32));
-                }
-                if let Some(s) = symbol_names.get("__fini_array_end") {
+                [("__fini_array_start", 0), ("__fini_array_end", section.size_on_disk())]
+            } else {
+                continue;
+            };
+            for (name, offset) in bounds {
+                if let Some(s) = symbol_names.get(name) {
                     let sym_ref = SymbolRef::Named(s.offset as u32);
                     let mut symbols = as_mut_sym_tab(&self.sym_section);
-                    if let Some(symbol) = symbols.get_mut(sym_ref) {
-                        symbol.st_value = section.size_on_disk();
+                    // a definition of our own takes precedence
+                    if let Some(symbol) = symbols.get_mut(sym_ref).filter(|s| s.is_undefined()) {
+                        symbol.st_value = offset;
+                        // the first chunk is at the start of the section
+                        section.chunk_mut(0).add_symbol(sym_ref);
                     }
-                    let chunk_index = section.last_chunk_index();
-                    section.chunk_mut(chunk_index).add_symbol(sym_ref);
                 }
             }
         }
-- 
2.43.0


From 04e225d04b98b5fba6fa89733b3b424fa57a10a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:40 +0000
Subject: [PATCH 08/50] fix: make the output independent of hash map iteration
 order

Undefined symbols, archive members, dynamic relocations, sections and symbols
that compare equal were all processed in an arbitrary order.
---
 src/elf.rs              | 14 ++++++++++----
 src/elf/symbol_table.rs |  3 ++-
 src/lib.rs              | 26 +++++++++++++-------------
 3 files changed, 25 insertions(+), 18 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 5d8d2ab..b698241 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -538,6 +538,8 @@ impl<'d> Writer<'d> {
                 undefined.push(SymbolRef::Named(*st_name));
             }
         }
+        // in the order in which the symbols were first seen
+        undefined.sort_by_key(|s| s.st_name());
         undefined
     }
 
@@ -760,7 +762,7 @@ impl<'d> Writer<'d> {
 
     fn sort_sections(&mut self) {
         let null_sect = self.sections.remove(0);
-        self.sections.sort_unstable_by(section_cmp);
+        self.sections.sort_by(section_cmp);
         self.sections.insert(0, null_sect);
         for (i, section) in self.sections.iter_mut().enumerate() {
             section.write().set_index(i);
@@ -852,9 +854,13 @@ impl<'d> Writer<'d> {
             let mut dyn_syms = as_mut_sym_tab(&self.dyn_sym_section);
             let section_names = as_str_tab(&self.shstr_section);
 
-            for (sym, dyn_sym) in
-                symbols.named_mut().values_mut().filter_map(|s| s.dynamic().map(|d| (s, d)))
-            {
+            let mut dynamic = symbols
+                .named_mut()
+                .values_mut()
+                .filter_map(|s| s.dynamic().map(|d| (s, d)))
+                .collect::<Vec<_>>();
+            dynamic.sort_by_key(|(s, _)| s.st_name);
+            for (sym, dyn_sym) in dynamic {
                 let index = dyn_sym_indices[&dyn_sym.st_name()];
                 if let Some(offset) = sym.got_offset() {
                     self.dyn_rels.push(rela(offset, index, R_X86_64_GLOB_DAT));
diff --git a/src/elf/symbol_table.rs b/src/elf/symbol_table.rs
index 1cc0931..8992c32 100644
--- a/src/elf/symbol_table.rs
+++ b/src/elf/symbol_table.rs
@@ -294,7 +294,8 @@ fn sort_symbols_func(s1: &Symbol, s2: &Symbol, nbuckets: u32) -> Ordering {
     match b1.cmp(&b2) {
         Ordering::Equal => (s1.gnu_hash() % nbuckets)
             .cmp(&(s2.gnu_hash() % nbuckets))
-            .then(s1.gnu_hash().cmp(&s2.gnu_hash())),
+            .then(s1.gnu_hash().cmp(&s2.gnu_hash()))
+            .then(s1.st_name.cmp(&s2.st_name)),
         c => c,
     }
 }
diff --git a/src/lib.rs b/src/lib.rs
index d73abd7..8e63b02 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -137,14 +137,13 @@ impl Linker {
         symbols: &[elf::SymbolRef],
         writer: &mut elf::Writer<'o>,
     ) -> Result<Vec<elf::SymbolRef>, Error<'o>> {
-        let mut undefines =
-            symbols.iter().map(|s| (*s, false)).collect::<HashMap<elf::SymbolRef, bool>>();
+        let mut undefines = symbols.iter().map(|s| (*s, false)).collect::<Vec<_>>();
         for (lib, _) in &self.options.shared_libs {
             let path = lib.as_path();
             let data = read(path).map_path_err(path)?;
             let elf = Elf::parse(&data).unwrap();
-            for entry in undefines.iter_mut().filter(|(_, v)| !**v) {
-                let name = if let Some(name) = writer.symbol_name(*entry.0) {
+            for entry in undefines.iter_mut() {
+                let name = if let Some(name) = writer.symbol_name(entry.0) {
                     name.to_string()
                 } else {
                     continue;
@@ -152,7 +151,7 @@ impl Linker {
                 for sym in &elf.dynsyms {
                     let inner_name = get_dyn_symbol_name(&elf, sym.st_name).map_path_err(path)?;
                     if name == inner_name {
-                        *entry.1 = true;
+                        entry.1 = true;
                         writer
                             .add_dyn_symbol(sym.into(), None, inner_name, path)
                             .map_path_err(path)?;
@@ -160,7 +159,7 @@ impl Linker {
                     }
                 }
             }
-            undefines.retain(|_, found| !*found);
+            undefines.retain(|(_, found)| !*found);
         }
         Ok(undefines.into_iter().map(|(k, _)| k).collect())
     }
@@ -170,22 +169,23 @@ impl Linker {
         symbols: &[elf::SymbolRef],
         writer: &mut elf::Writer<'o>,
     ) -> Result<Vec<elf::SymbolRef>, Error<'o>> {
-        let mut undefines =
-            symbols.iter().map(|s| (*s, false)).collect::<HashMap<elf::SymbolRef, bool>>();
+        let mut undefines = symbols.iter().map(|s| (*s, false)).collect::<Vec<_>>();
         for ar in &self.archives {
             let path = ar.as_path();
             let data = read(path).map_path_err(path)?;
             let ar = Archive::parse(&data).map_path_err(path)?;
-            let mut members = HashSet::new();
+            let mut members = vec![];
             for entry in &mut undefines {
-                let name = if let Some(name) = writer.symbol_name(*entry.0) {
+                let name = if let Some(name) = writer.symbol_name(entry.0) {
                     name
                 } else {
                     continue;
                 };
                 if let Some(member) = ar.member_of_symbol(&*name) {
-                    *entry.1 = true;
-                    members.insert(member);
+                    entry.1 = true;
+                    if !members.contains(&member) {
+                        members.push(member);
+                    }
                 }
             }
             for member in members {
@@ -198,7 +198,7 @@ impl Linker {
                 elf.process_symbols(writer)?;
                 elf.process_relocations(writer)?;
             }
-            undefines.retain(|_, found| !*found);
+            undefines.retain(|(_, found)| !*found);
         }
         Ok(undefines.into_iter().map(|(k, _)| k).collect())
     }
-- 
2.43.0


From 1a6eb99779dcc9641ec17f940a548fb03e8039d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:31:19 +0000
Subject: [PATCH 09/50] fix: search directories and archives in command-line
 order

Both were kept in hash sets, a later directory won over an earlier one, and a
directory given as -LDIR that doesn't exist crashed the linker.
---
 src/lib.rs  |  4 ++--
 src/main.rs | 16 ++++++++++------
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8e63b02..5adb217 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -17,7 +17,7 @@ use goblin::{
     },
 };
 use std::{
-    collections::{HashMap, HashSet},
+    collections::HashMap,
     fs::read,
     path::{Path, PathBuf},
 };
@@ -128,7 +128,7 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
 pub struct Linker {
     pub options: crate::elf::Options,
     pub objects: Vec<PathBuf>,
-    pub archives: HashSet<PathBuf>,
+    pub archives: Vec<PathBuf>,
 }
 
 impl Linker {
diff --git a/src/main.rs b/src/main.rs
index 45d6b40..8875919 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,6 +1,6 @@
 use dld::elf::{BuildId, Emulation, HashStyle, Options};
 use goblin::elf32::header::ET_DYN;
-use std::{collections::HashSet, io::Read, path::PathBuf, str::FromStr};
+use std::{io::Read, path::PathBuf, str::FromStr};
 
 mod linker_script;
 
@@ -31,8 +31,8 @@ OPTIONS:
 struct AppArgs {
     opts: Options,
     objects: Vec<PathBuf>,
-    archives: HashSet<PathBuf>,
-    search_paths: HashSet<PathBuf>,
+    archives: Vec<PathBuf>,
+    search_paths: Vec<PathBuf>,
     scripts: Vec<PathBuf>,
     inputs: Vec<(PathBuf, bool)>,
     help: bool,
@@ -148,7 +148,7 @@ fn handle_linker_args(
             "-L" => {
                 let path =
                     args.next().ok_or_else(|| "Missing argument <PATH> for '-L'.".to_string())?;
-                app.search_paths.insert(path.into());
+                app.search_paths.push(path.into());
                 continue;
             }
             "-l" => {
@@ -179,7 +179,7 @@ fn handle_linker_args(
             }
         }
         if let Some(arg) = arg.strip_prefix("-L") {
-            app.search_paths.insert(PathBuf::from(arg).canonicalize().unwrap());
+            app.search_paths.push(arg.into());
         } else if let Some(lib) = arg.strip_prefix("-l") {
             app.inputs.push((lib.into(), app.as_needed));
         } else if let Some(arg) = arg.strip_prefix("--hash-style=") {
@@ -210,6 +210,7 @@ fn search_for_inputs(args: &mut AppArgs) -> Result<(), PathBuf> {
                 let input = dir.join(format!("lib{}.{}", lib.display(), kind));
                 if input.exists() && input.is_file() {
                     found = Some(input);
+                    break;
                 }
             }
         }
@@ -220,7 +221,10 @@ fn search_for_inputs(args: &mut AppArgs) -> Result<(), PathBuf> {
                     args.objects.push(lib.canonicalize().unwrap());
                 }
                 FileType::Archive => {
-                    args.archives.insert(lib.canonicalize().unwrap());
+                    let archive = lib.canonicalize().unwrap();
+                    if !args.archives.contains(&archive) {
+                        args.archives.push(archive);
+                    }
                 }
                 FileType::ElfSharedLib => args.opts.shared_libs.push((lib, as_needed)),
                 FileType::Text => args.scripts.push(lib),
-- 
2.43.0


From cd604fe40a081263b3f958c7de4d0903e2dcd151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:31:37 +0000
Subject: [PATCH 10/50] fix: read every linker script once and report what's
 wrong with it

Scripts that don't parse looped forever or crashed the linker, scripts that
name each other were read over and over, inputs of a script that can't be
found were ignored, comments and names could hold characters that weren't
understood, --as-needed leaked from one script into the next, and an empty
input passed for a script.
---
 src/elf.rs              |  4 ++--
 src/elf/symbol_table.rs |  3 +--
 src/linker_script.rs    | 43 ++++++++++++++++++++++++++-------------
 src/main.rs             | 45 +++++++++++++++++++++++++++--------------
 4 files changed, 62 insertions(+), 33 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index b698241..8e13121 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -7,8 +7,8 @@ use goblin::elf64::{
     reloc::{r_type, Rela, *},
     section_header::{
         SectionHeader, SHF_ALLOC, SHF_EXECINSTR, SHF_WRITE, SHN_ABS, SHN_UNDEF, SHT_DYNAMIC,
-        SHT_DYNSYM, SHT_FINI_ARRAY, SHT_GNU_HASH, SHT_HASH, SHT_INIT_ARRAY, SHT_NOBITS, SHT_PROGBITS,
-        SHT_RELA, SHT_STRTAB,
+        SHT_DYNSYM, SHT_FINI_ARRAY, SHT_GNU_HASH, SHT_HASH, SHT_INIT_ARRAY, SHT_NOBITS,
+        SHT_PROGBITS, SHT_RELA, SHT_STRTAB,
     },
     sym::Sym,
 };
diff --git a/src/elf/symbol_table.rs b/src/elf/symbol_table.rs
index 8992c32..718f3f9 100644
--- a/src/elf/symbol_table.rs
+++ b/src/elf/symbol_table.rs
@@ -176,8 +176,7 @@ impl<'p> SymbolTable<'p> {
     }
 
     pub fn sorted(&self) -> Vec<&Symbol<'p>> {
-        let mut syms: Vec<&Symbol<'p>> =
-            self.symbols.values().chain(self.locals.iter()).collect();
+        let mut syms: Vec<&Symbol<'p>> = self.symbols.values().chain(self.locals.iter()).collect();
         // the GNU hash table needs all the symbols of a bucket to be next to each other
         let nbuckets = if self.is_dynamic { GnuHashTable::nbuckets(syms.len()) } else { 1 };
         syms.sort_by(|s1, s2| sort_symbols_func(s1, s2, nbuckets));
diff --git a/src/linker_script.rs b/src/linker_script.rs
index afeb65b..e072128 100644
--- a/src/linker_script.rs
+++ b/src/linker_script.rs
@@ -2,7 +2,9 @@ use combine::error::{ParseError, StringStreamError};
 use combine::parser::char::{alpha_num, char, space, string};
 use combine::parser::repeat::skip_until;
 use combine::stream::Stream;
-use combine::{between, choice, many1, optional, sep_end_by, skip_many, skip_many1, Parser};
+use combine::{
+    attempt, between, choice, many1, optional, sep_end_by, skip_many, skip_many1, Parser,
+};
 
 /// Parses an argument like: 'foo.so' or `/lib/foo.so'.
 pub fn parse_arg<Input>() -> impl Parser<Input, Output = String>
@@ -10,7 +12,7 @@ where
     Input: Stream<Token = char>,
     Input::Error: ParseError<Input::Token, Input::Range, Input::Position>,
 {
-    many1(choice((alpha_num(), char('-'), char('.'), char('_'), char('/'))))
+    many1(choice((alpha_num(), char('-'), char('.'), char('_'), char('/'), char('+'))))
 }
 /// Parses a comment like: /* hey \n second line */
 pub fn parse_comment<Input>() -> impl Parser<Input, Output = ()>
@@ -18,7 +20,16 @@ where
     Input: Stream<Token = char>,
     Input::Error: ParseError<Input::Token, Input::Range, Input::Position>,
 {
-    between(string("/*"), string("*/"), skip_until(string("*/")))
+    between(attempt(string("/*")), string("*/"), skip_until(attempt(string("*/"))))
+}
+
+/// Skips everything that may come between two words.
+pub fn skip_ws_and_comments<Input>() -> impl Parser<Input, Output = ()>
+where
+    Input: Stream<Token = char>,
+    Input::Error: ParseError<Input::Token, Input::Range, Input::Position>,
+{
+    skip_many(skip_many1(space()).or(parse_comment()))
 }
 
 /// Parses a GROUP command like: GROUP ( libgcc_s.so.1 -lgcc )
@@ -28,10 +39,13 @@ where
     Input::Error: ParseError<Input::Token, Input::Range, Input::Position>,
 {
     let args = (
-        skip_many(space()),
-        sep_end_by(parse_as_needed_command().or(parse_arg().map(|v| vec![v])), skip_many(space())),
+        skip_ws_and_comments(),
+        sep_end_by(
+            attempt(parse_as_needed_command()).or(parse_arg().map(|v| vec![v])),
+            skip_ws_and_comments(),
+        ),
     );
-    (string("GROUP"), skip_many(space()), between(char('('), char(')'), args))
+    (string("GROUP"), skip_ws_and_comments(), between(char('('), char(')'), args))
         .map(|(_, _, s): (_, _, ((), Vec<Vec<String>>))| s.1.into_iter().flatten().collect())
 }
 
@@ -41,8 +55,8 @@ where
     Input: Stream<Token = char>,
     Input::Error: ParseError<Input::Token, Input::Range, Input::Position>,
 {
-    let args = (skip_many(space()), sep_end_by(parse_arg(), skip_many(space())));
-    (string("AS_NEEDED"), skip_many(space()), between(char('('), char(')'), args)).map(
+    let args = (skip_ws_and_comments(), sep_end_by(parse_arg(), skip_ws_and_comments()));
+    (string("AS_NEEDED"), skip_ws_and_comments(), between(char('('), char(')'), args)).map(
         |(_, _, s): (_, _, (_, Vec<String>))| {
             let mut v: Vec<String> = vec!["--as-needed".into()];
             v.extend(s.1);
@@ -57,18 +71,16 @@ where
     Input: Stream<Token = char>,
     Input::Error: ParseError<Input::Token, Input::Range, Input::Position>,
 {
-    let args = (skip_many(space()), parse_arg(), skip_many(space()));
-    (string("OUTPUT_FORMAT"), skip_many(space()), between(char('('), char(')'), args))
+    let args = (skip_ws_and_comments(), parse_arg(), skip_ws_and_comments());
+    (string("OUTPUT_FORMAT"), skip_ws_and_comments(), between(char('('), char(')'), args))
         // TODO: handle output format argument
         .map(|(_, _, _): (_, _, (_, String, _))| vec![])
 }
 
 pub fn parse(mut input: &str) -> Result<Vec<String>, StringStreamError> {
     let mut new_args = vec![];
-    let skip_ws_and_comments =
-        skip_many(skip_many1(space()).or(parse_comment()).or(char('\n').map(|_| ())));
     let mut line = (
-        skip_ws_and_comments,
+        skip_ws_and_comments(),
         optional(choice((parse_group_command(), parse_output_format_command()))),
     );
     loop {
@@ -76,7 +88,10 @@ pub fn parse(mut input: &str) -> Result<Vec<String>, StringStreamError> {
         if let Some(args) = args {
             new_args.extend(args);
         }
-        if !leftover.is_empty() {
+        if leftover.len() == input.len() {
+            // there is something that we don't understand
+            return Err(StringStreamError::UnexpectedParse);
+        } else if !leftover.is_empty() {
             input = leftover;
         } else {
             break;
diff --git a/src/main.rs b/src/main.rs
index 8875919..36c49b1 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -33,7 +33,7 @@ struct AppArgs {
     objects: Vec<PathBuf>,
     archives: Vec<PathBuf>,
     search_paths: Vec<PathBuf>,
-    scripts: Vec<PathBuf>,
+    scripts: Vec<(PathBuf, bool)>,
     inputs: Vec<(PathBuf, bool)>,
     help: bool,
     as_needed: bool,
@@ -46,12 +46,25 @@ fn main() -> Result<(), String> {
         println!("{}", HELP);
         return Ok(());
     }
-    while let Some(script) = args.scripts.pop() {
-        let new_args = linker_script::parse(&std::fs::read_to_string(script).unwrap()).unwrap();
+    let mut seen = vec![];
+    while !args.scripts.is_empty() {
+        let (script, as_needed) = args.scripts.remove(0);
+        // scripts may name each other
+        if seen.contains(&script) {
+            continue;
+        }
+        let err = |e: &dyn std::fmt::Display| format!("`{}`: {}", script.display(), e);
+        let text = std::fs::read_to_string(&script).map_err(|e| err(&e))?;
+        if text.trim().is_empty() {
+            return Err(err(&"The file is empty."));
+        }
+        let new_args = linker_script::parse(&text).map_err(|e| err(&e))?;
         if !new_args.is_empty() {
+            args.as_needed = as_needed;
             handle_linker_args(&mut new_args.into_iter().peekable(), &mut args)?;
-            let _ = search_for_inputs(&mut args);
+            search_for_inputs(&mut args)?;
         }
+        seen.push(script);
     }
     log::debug!("{:#?}", args);
     let linker = dld::Linker { options: args.opts, objects: args.objects, archives: args.archives };
@@ -74,8 +87,9 @@ enum FileType {
 fn file_type(input: &std::path::Path) -> std::io::Result<FileType> {
     let mut f = std::fs::File::open(&input)?;
     let mut header = [0; 18];
-    if f.read_exact(&mut header).is_err() {
-        return Ok(FileType::Text);
+    match f.read_exact(&mut header) {
+        Err(e) if e.kind() == std::io::ErrorKind::UnexpectedEof => return Ok(FileType::Text),
+        r => r?,
     }
     if header.starts_with(goblin::archive::MAGIC) {
         Ok(FileType::Archive)
@@ -95,7 +109,7 @@ fn parse_args() -> Result<AppArgs, String> {
     let _ = args.next();
     let mut app = Default::default();
     handle_linker_args(&mut args, &mut app)?;
-    search_for_inputs(&mut app).map_err(|e| format!("Couldn't find library {}", e.display()))?;
+    search_for_inputs(&mut app)?;
     Ok(app)
 }
 
@@ -191,7 +205,7 @@ fn handle_linker_args(
     Ok(())
 }
 
-fn search_for_inputs(args: &mut AppArgs) -> Result<(), PathBuf> {
+fn search_for_inputs(args: &mut AppArgs) -> Result<(), String> {
     for (lib, as_needed) in args.inputs.drain(..) {
         let mut found = None;
         if lib.exists() && lib.is_file() {
@@ -215,22 +229,23 @@ fn search_for_inputs(args: &mut AppArgs) -> Result<(), PathBuf> {
             }
         }
         if let Some(lib) = found.take() {
-            let file_type = file_type(&lib).unwrap();
+            let err = |e: std::io::Error| format!("`{}`: {}", lib.display(), e);
+            let path = lib.canonicalize().map_err(err)?;
+            let file_type = file_type(&lib).map_err(err)?;
             match file_type {
                 FileType::ElfObject => {
-                    args.objects.push(lib.canonicalize().unwrap());
+                    args.objects.push(path);
                 }
                 FileType::Archive => {
-                    let archive = lib.canonicalize().unwrap();
-                    if !args.archives.contains(&archive) {
-                        args.archives.push(archive);
+                    if !args.archives.contains(&path) {
+                        args.archives.push(path);
                     }
                 }
                 FileType::ElfSharedLib => args.opts.shared_libs.push((lib, as_needed)),
-                FileType::Text => args.scripts.push(lib),
+                FileType::Text => args.scripts.push((path, as_needed)),
             }
         } else {
-            return Err(lib);
+            return Err(format!("Couldn't find library {}", lib.display()));
         }
     }
     Ok(())
-- 
2.43.0


From 2584716701795ca09da32bda68be1bb402082949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:02 +0000
Subject: [PATCH 11/50] fix: reject inputs that aren't ELF files we can link

Executables given as inputs were ignored, files of other machines, classes and
byte orders were linked, and libraries that don't parse crashed the linker.
---
 src/lib.rs | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5adb217..95e5978 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -10,6 +10,7 @@ use goblin::{
     archive::Archive,
     elf::Elf,
     elf64::{
+        header::EM_X86_64,
         reloc::Rela,
         section_header::{
             SHT_DYNAMIC, SHT_DYNSYM, SHT_REL, SHT_RELA, SHT_SHLIB, SHT_STRTAB, SHT_SYMTAB,
@@ -39,9 +40,12 @@ pub struct ElfObject<'i, 'p, 'd, 'e> {
 }
 
 impl<'p, 'd> Input<'p, 'd> {
-    fn to_elf_object<'i>(&'i self) -> Result<Option<ElfObject<'i, 'p, '_, 'i>>, Error<'p>> {
-        let elf = Elf::parse(self.data).map_path_err(self.path)?;
-        Ok(if elf.is_object_file() { Some(ElfObject::new(self, elf)) } else { None })
+    fn to_elf_object<'i>(&'i self) -> Result<ElfObject<'i, 'p, '_, 'i>, Error<'p>> {
+        let elf = parse_elf(self.data).map_path_err(self.path)?;
+        if !elf.is_object_file() {
+            return Err("Not a relocatable object.".to_string()).map_path_err(self.path);
+        }
+        Ok(ElfObject::new(self, elf))
     }
 }
 
@@ -141,7 +145,7 @@ impl Linker {
         for (lib, _) in &self.options.shared_libs {
             let path = lib.as_path();
             let data = read(path).map_path_err(path)?;
-            let elf = Elf::parse(&data).unwrap();
+            let elf = parse_elf(&data).map_path_err(path)?;
             for entry in undefines.iter_mut() {
                 let name = if let Some(name) = writer.symbol_name(entry.0) {
                     name.to_string()
@@ -193,7 +197,7 @@ impl Linker {
                 let object_data =
                     &data[(object.offset as usize)..(object.offset as usize + object.size())];
                 let input = Input { path, data: object_data };
-                let mut elf = input.to_elf_object()?.unwrap();
+                let mut elf = input.to_elf_object()?;
                 elf.process_sections(writer)?;
                 elf.process_symbols(writer)?;
                 elf.process_relocations(writer)?;
@@ -219,10 +223,9 @@ impl Linker {
             .collect::<Result<Vec<Input>, Error<'_>>>()?;
         let mut elfs = Vec::with_capacity(inputs.len());
         for input in &inputs {
-            if let Some(mut elf) = input.to_elf_object()? {
-                elf.process_sections(&mut writer)?;
-                elfs.push(elf);
-            };
+            let mut elf = input.to_elf_object()?;
+            elf.process_sections(&mut writer)?;
+            elfs.push(elf);
         }
         for elf in &mut elfs {
             elf.process_symbols(&mut writer)?;
@@ -254,6 +257,15 @@ impl Linker {
     }
 }
 
+/// Parses an ELF, as long as it is one that we can link.
+fn parse_elf(data: &[u8]) -> Result<Elf<'_>, ErrorType> {
+    let elf = Elf::parse(data)?;
+    if elf.header.e_machine != EM_X86_64 || !elf.is_64 || !elf.little_endian {
+        return Err(ErrorType::Other("Not an x86-64 ELF.".into()));
+    }
+    Ok(elf)
+}
+
 fn get_section_name<'e>(elf: &Elf<'e>, index: usize) -> Result<&'e str, String> {
     elf.shdr_strtab.get_at(index).ok_or_else(|| "Symbol not found in strtab.".to_string())
 }
-- 
2.43.0


From b9d51a21df6f464b39c55dbed312e8d11ebbeaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:35 +0000
Subject: [PATCH 12/50] fix: bind imports to definitions and record exactly the
 libraries needed

References of a library passed for definitions, --no-as-needed and SONAMEs
were ignored, a library whose name is also a symbol's was left out, weak
undefined symbols failed the link, and a name that an archive member defines
after a library was found to have it kept its import.
---
 src/elf.rs    | 24 ++++++++++++++++++++++--
 src/lib.rs    | 31 +++++++++++++++++++++++++++----
 src/symbol.rs |  7 ++++++-
 3 files changed, 55 insertions(+), 7 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 8e13121..934bc4b 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -543,6 +543,23 @@ impl<'d> Writer<'d> {
         undefined
     }
 
+    /// Whether a link without a definition of `sym` has to fail.
+    pub fn is_required(&self, sym: SymbolRef) -> bool {
+        as_sym_tab(&self.sym_section)
+            .get(sym)
+            .map_or(false, |s| s.is_global() && s.is_undefined() && s.dynamic().is_none())
+    }
+
+    /// Whether the library at `path` defines any of our symbols.
+    pub fn imports_from(&self, path: &Path) -> bool {
+        let dyn_symbols = as_sym_tab(&self.dyn_sym_section);
+        as_sym_tab(&self.sym_section)
+            .named()
+            .values()
+            .filter_map(|s| s.dynamic().and_then(|d| dyn_symbols.get(d)))
+            .any(|d| d.reference() == path)
+    }
+
     pub fn add_relocation(
         &mut self,
         reloc: Rela,
@@ -582,8 +599,11 @@ impl<'d> Writer<'d> {
             .inner_mut::<StringTable>()
             .unwrap()
             .get_or_create(so_name.to_string());
-        if entry.new {
-            self.dyn_entries.push((DynTag::Needed, entry.offset as u64));
+        let offset = entry.offset as u64;
+        let is_needed =
+            |(tag, value): &(DynTag, u64)| matches!(tag, DynTag::Needed) && *value == offset;
+        if !self.dyn_entries.iter().any(is_needed) {
+            self.dyn_entries.push((DynTag::Needed, offset));
         }
     }
 
diff --git a/src/lib.rs b/src/lib.rs
index 95e5978..49d3608 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -8,7 +8,7 @@ mod utils;
 use error::{Error, ErrorExt, ErrorType};
 use goblin::{
     archive::Archive,
-    elf::Elf,
+    elf::{sym::STB_LOCAL, Elf},
     elf64::{
         header::EM_X86_64,
         reloc::Rela,
@@ -152,14 +152,17 @@ impl Linker {
                 } else {
                     continue;
                 };
-                for sym in &elf.dynsyms {
+                // a symbol that the library merely references is not a definition
+                for sym in
+                    elf.dynsyms.iter().filter(|s| s.st_shndx != 0 && s.st_bind() != STB_LOCAL)
+                {
                     let inner_name = get_dyn_symbol_name(&elf, sym.st_name).map_path_err(path)?;
                     if name == inner_name {
                         entry.1 = true;
                         writer
                             .add_dyn_symbol(sym.into(), None, inner_name, path)
                             .map_path_err(path)?;
-                        writer.add_needed(path.file_name().unwrap().to_str().unwrap());
+                        break;
                     }
                 }
             }
@@ -168,6 +171,23 @@ impl Linker {
         Ok(undefines.into_iter().map(|(k, _)| k).collect())
     }
 
+    /// Records the libraries that the loader has to load, in the order in which they were given.
+    fn add_needed_libs<'o>(&'o self, writer: &mut elf::Writer<'o>) -> Result<(), Error<'o>> {
+        for (lib, as_needed) in &self.options.shared_libs {
+            let path = lib.as_path();
+            if *as_needed && !writer.imports_from(path) {
+                continue;
+            }
+            let data = read(path).map_path_err(path)?;
+            let elf = parse_elf(&data).map_path_err(path)?;
+            match elf.soname.filter(|soname| !soname.is_empty()) {
+                Some(soname) => writer.add_needed(soname),
+                None => writer.add_needed(path.file_name().unwrap().to_str().unwrap()),
+            }
+        }
+        Ok(())
+    }
+
     fn process_archives_containing<'o>(
         &'o self,
         symbols: &[elf::SymbolRef],
@@ -242,8 +262,11 @@ impl Linker {
                 undefined = writer.undefined_symbols();
             }
         }
+        self.add_needed_libs(&mut writer)?;
         writer.compute_sections();
-        let undefined = writer.undefined_symbols();
+        let mut undefined = writer.undefined_symbols();
+        // nothing has to define what is only referenced weakly
+        undefined.retain(|u| writer.is_required(*u));
         if !undefined.is_empty() {
             let names = undefined
                 .iter()
diff --git a/src/symbol.rs b/src/symbol.rs
index fcabbf6..68ba144 100644
--- a/src/symbol.rs
+++ b/src/symbol.rs
@@ -116,7 +116,12 @@ impl<'r> Symbol<'r> {
     }
 
     pub const fn dynamic(&self) -> Option<SymbolRef> {
-        self.dynamic
+        // a definition of our own takes precedence
+        if self.is_undefined() {
+            self.dynamic
+        } else {
+            None
+        }
     }
 
     pub fn set_dynamic(&mut self, dynamic: SymbolRef) {
-- 
2.43.0


From c7a315b747062a5fe36309a1d40999d3327ff7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:34:09 +0000
Subject: [PATCH 13/50] fix: link the members that an archive's index names,
 once each

Members that became unnecessary were still linked, weak references extracted
members, duplicate member names or index entries selected the wrong member,
and an index entry for a symbol that its member doesn't define looped forever.
---
 src/lib.rs | 72 ++++++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 57 insertions(+), 15 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 49d3608..dd26219 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -7,7 +7,7 @@ mod utils;
 
 use error::{Error, ErrorExt, ErrorType};
 use goblin::{
-    archive::Archive,
+    archive::{self, Archive},
     elf::{sym::STB_LOCAL, Elf},
     elf64::{
         header::EM_X86_64,
@@ -18,7 +18,7 @@ use goblin::{
     },
 };
 use std::{
-    collections::HashMap,
+    collections::{HashMap, HashSet},
     fs::read,
     path::{Path, PathBuf},
 };
@@ -191,6 +191,7 @@ impl Linker {
     fn process_archives_containing<'o>(
         &'o self,
         symbols: &[elf::SymbolRef],
+        extracted: &mut HashSet<(PathBuf, u64)>,
         writer: &mut elf::Writer<'o>,
     ) -> Result<Vec<elf::SymbolRef>, Error<'o>> {
         let mut undefines = symbols.iter().map(|s| (*s, false)).collect::<Vec<_>>();
@@ -198,24 +199,31 @@ impl Linker {
             let path = ar.as_path();
             let data = read(path).map_path_err(path)?;
             let ar = Archive::parse(&data).map_path_err(path)?;
-            let mut members = vec![];
+            let index = archive_index(&data).map_path_err(path)?;
             for entry in &mut undefines {
+                // one of the members we've just linked might define it already, and a weak
+                // reference is no reason to link a member
+                if !writer.is_required(entry.0) {
+                    continue;
+                }
                 let name = if let Some(name) = writer.symbol_name(entry.0) {
-                    name
+                    name.to_string()
                 } else {
                     continue;
                 };
-                if let Some(member) = ar.member_of_symbol(&*name) {
-                    entry.1 = true;
-                    if !members.contains(&member) {
-                        members.push(member);
-                    }
+                let object = match member_of_symbol(&ar, &index, &name) {
+                    Some(object) => object,
+                    None => continue,
+                };
+                if !extracted.insert((path.into(), object.header_offset)) {
+                    continue;
                 }
-            }
-            for member in members {
-                let object = ar.get(member).unwrap();
-                let object_data =
-                    &data[(object.offset as usize)..(object.offset as usize + object.size())];
+                entry.1 = true;
+                let start = object.offset as usize;
+                let object_data = data
+                    .get(start..start + object.size())
+                    .ok_or_else(|| format!("Member {} is truncated.", object.extended_name()))
+                    .map_path_err(path)?;
                 let input = Input { path, data: object_data };
                 let mut elf = input.to_elf_object()?;
                 elf.process_sections(writer)?;
@@ -252,9 +260,11 @@ impl Linker {
             elf.process_relocations(&mut writer)?;
         }
         let mut undefined = writer.undefined_symbols();
+        let mut extracted = HashSet::new();
         loop {
             let undefined_next = self.find_undefined_symbols_in_libs(&undefined, &mut writer)?;
-            let undefined_next = self.process_archives_containing(&undefined_next, &mut writer)?;
+            let undefined_next =
+                self.process_archives_containing(&undefined_next, &mut extracted, &mut writer)?;
             // if the length doesn't change, it means we haven't found any of our symbols
             if undefined.len() == undefined_next.len() {
                 break;
@@ -280,6 +290,38 @@ impl Linker {
     }
 }
 
+/// The symbols in the index of an archive, with the offset of the member that defines each.
+fn archive_index(data: &[u8]) -> Result<Vec<(&str, u32)>, goblin::error::Error> {
+    let mut offset = archive::SIZEOF_MAGIC;
+    if data.len() < offset + archive::SIZEOF_HEADER {
+        return Ok(vec![]);
+    }
+    let member = archive::Member::parse(data, &mut offset)?;
+    let start = member.offset as usize;
+    let index = match data.get(start..start + member.size()) {
+        Some(index) if member.raw_name().trim_end() == "/" => {
+            archive::Index::parse_sysv_index(index)?
+        }
+        _ => return Ok(vec![]),
+    };
+    Ok(index.strtab.into_iter().zip(index.symbol_indexes).collect())
+}
+
+/// The first member that defines `symbol`. Neither the names of the members nor the symbols have
+/// to be unique.
+fn member_of_symbol<'a>(
+    ar: &'a Archive<'a>,
+    index: &[(&str, u32)],
+    symbol: &str,
+) -> Option<&'a archive::Member<'a>> {
+    match index.iter().find(|(s, _)| *s == symbol) {
+        Some((_, offset)) => (0..ar.len())
+            .filter_map(|i| ar.get_at(i))
+            .find(|member| member.header_offset == *offset as u64),
+        None => ar.member_of_symbol(symbol).and_then(|member| ar.get(member)),
+    }
+}
+
 /// Parses an ELF, as long as it is one that we can link.
 fn parse_elf(data: &[u8]) -> Result<Elf<'_>, ErrorType> {
     let elf = Elf::parse(data)?;
-- 
2.43.0


From 6681d022c40f20b89956b91122052cf08362a268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:34:43 +0000
Subject: [PATCH 14/50] fix: don't lock a section twice to log its name

With RUST_LOG=trace the linker waited forever for a lock it held itself.
---
 src/elf.rs | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 934bc4b..f55e1cc 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -995,28 +995,23 @@ impl<'d> Writer<'d> {
             offset += ph.serialize(&mut self.out);
         }
         for (i, section) in self.sections.iter().enumerate() {
-            let mut section = section.write();
             // add the necessary padding between aligned sections
-            if offset < section.sh_offset as usize {
+            let sh_offset = section.read().sh_offset as usize;
+            if offset < sh_offset {
                 self.out
-                    .write_all(
-                        &std::iter::repeat(0)
-                            .take(section.sh_offset as usize - offset)
-                            .collect::<Vec<u8>>(),
-                    )
+                    .write_all(&std::iter::repeat(0).take(sh_offset - offset).collect::<Vec<u8>>())
                     .unwrap();
-                offset = section.sh_offset as usize;
+                offset = sh_offset;
             }
+            // must not hold on to the section, because its name might be in it
+            let sh_name = section.read().sh_name;
             log::trace!(
                 "0x{:x}: ---- section {} {:?} ----",
                 offset,
                 i,
-                self.shstr_section
-                    .read()
-                    .inner::<StringTable>()
-                    .unwrap()
-                    .name(section.sh_name as usize)
+                self.shstr_section.read().inner::<StringTable>().unwrap().name(sh_name as usize)
             );
+            let mut section = section.write();
             section.finalize();
             for chunk in section.chunks() {
                 self.out.write_all(chunk).unwrap();
-- 
2.43.0


From d5d04ab7d7ba593cc288a4b2585e0fba1eca9f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:34:46 +0000
Subject: [PATCH 15/50] fix: don't leave a partial executable behind

The permissions of an earlier output were kept while it was overwritten, so
a link that failed or was interrupted left an executable that isn't one.
---
 src/elf.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index f55e1cc..3b30117 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -20,7 +20,7 @@ use std::{
     cmp::{max, Ordering},
     collections::HashMap,
     convert::TryInto,
-    fs::File,
+    fs::{File, OpenOptions},
     io::Write,
     mem::{align_of, size_of},
     os::unix::prelude::PermissionsExt,
@@ -173,7 +173,15 @@ pub struct Writer<'d> {
 
 impl<'d> Writer<'d> {
     pub fn new(options: &'d options::Options) -> std::io::Result<Self> {
-        let out = File::create(options.output.as_path())?;
+        let out = OpenOptions::new().write(true).create(true).open(options.output.as_path())?;
+        // there may be an executable already, which must not stay one until we are done with it
+        let metadata = out.metadata()?;
+        if metadata.is_file() {
+            let mut perm = metadata.permissions();
+            perm.set_mode(perm.mode() & !0o111);
+            out.set_permissions(perm)?;
+            out.set_len(0)?;
+        }
         let eh = Header {
             #[rustfmt::skip]
             e_ident: [
-- 
2.43.0


From 51e972c4d8a5d31d93b6c18c53cba4379953ed08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:10 +0000
Subject: [PATCH 16/50] fix: check absolute relocations against the range of
 their field

R_X86_64_32 rejected the upper half of its range, R_X86_64_32S truncated
silently, and absolute symbols with the top bit set crashed the linker.
---
 src/elf/chunk.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/elf/chunk.rs b/src/elf/chunk.rs
index 206a451..2bee7ba 100644
--- a/src/elf/chunk.rs
+++ b/src/elf/chunk.rs
@@ -116,10 +116,8 @@ fn apply_relocation(
     // `stderr` is an object, we will know its address at runtime because
     // we will issue a COPY relocation to make a copy of `stderr` for our binary.
     let s: i64 = match symbol.dynamic() {
-        Some(dyn_sym) if symbol.is_undefined() => {
-            dyn_table.get(dyn_sym).unwrap().st_value.try_into().unwrap()
-        }
-        _ => symbol.st_value.try_into().unwrap(),
+        Some(dyn_sym) if symbol.is_undefined() => dyn_table.get(dyn_sym).unwrap().st_value as i64,
+        _ => symbol.st_value as i64,
     };
     let a = rel.r_addend;
     let p: i64 = (chunk_address + rel.r_offset).try_into().unwrap();
@@ -129,13 +127,14 @@ fn apply_relocation(
     let offset = rel.r_offset as usize;
     match (rel.r_info & 0xffff_ffff) as u32 {
         R_X86_64_NONE => {}
-        R_X86_64_64 => (&mut data[offset..]).write_i64::<LittleEndian>(s + a).unwrap(),
+        R_X86_64_64 => (&mut data[offset..]).write_i64::<LittleEndian>(s.wrapping_add(a)).unwrap(),
         R_X86_64_32 => {
-            (&mut data[offset..]).write_i32::<LittleEndian>((s + a).try_into().unwrap()).unwrap();
+            // zero extended
+            (&mut data[offset..]).write_u32::<LittleEndian>((s + a).try_into().unwrap()).unwrap();
         }
         R_X86_64_32S => {
-            // TODO warn about truncation
-            (&mut data[offset..]).write_i32::<LittleEndian>((s + a) as i32).unwrap()
+            // sign extended
+            (&mut data[offset..]).write_i32::<LittleEndian>((s + a).try_into().unwrap()).unwrap();
         }
         R_X86_64_PC32 => (&mut data[offset..])
             .write_i32::<LittleEndian>((s + a - p).try_into().unwrap())
-- 
2.43.0


From 0a6ea36a78025e48016b8a50801851c2f3cf8f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:11 +0000
Subject: [PATCH 17/50] fix: relocate sections that aren't loaded

Debug information crashed the linker.
---
 src/elf/chunk.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/elf/chunk.rs b/src/elf/chunk.rs
index 2bee7ba..1b4c95b 100644
--- a/src/elf/chunk.rs
+++ b/src/elf/chunk.rs
@@ -55,7 +55,8 @@ impl Chunk {
     ) {
         for (rela, symbol_ref) in &self.relocations {
             apply_relocation(
-                *self.address.as_ref().unwrap(),
+                // sections that aren't loaded don't have an address
+                self.address.unwrap_or_default(),
                 &mut self.data[..],
                 *rela,
                 table.get(*symbol_ref).unwrap(),
-- 
2.43.0


From dfa7c9d4073f7935249569990c4331af1b4e2af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:11 +0000
Subject: [PATCH 18/50] fix: don't copy section indexes of an input to the
 output

---
 src/elf.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 3b30117..3f5c3ff 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -404,8 +404,9 @@ impl<'d> Writer<'d> {
                 sh_flags: sh.sh_flags as u64,
                 // grows as chunks are added
                 sh_size: 0,
-                sh_link: sh.sh_link,
-                sh_info: sh.sh_info,
+                // the indexes that an input refers to mean nothing in the output
+                sh_link: 0,
+                sh_info: 0,
                 sh_entsize: sh.sh_entsize,
                 sh_addralign: sh.sh_addralign,
                 // patched later on
-- 
2.43.0


From 7cd0e3e06a1a400dfb56cdff7f4b87543f9c569c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:36 +0000
Subject: [PATCH 19/50] fix: use the GOT for loads that can't be relaxed

R_X86_64_GOTPCREL and instructions other than mov, call and jmp crashed the
linker, and the slots of symbols that aren't imported were never filled.
---
 src/elf.rs              | 16 +++++++++++++++-
 src/elf/chunk.rs        | 29 +++++++++++++++++++++++++----
 src/elf/symbol_table.rs |  5 +++++
 3 files changed, 45 insertions(+), 5 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 3f5c3ff..1323ef6 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -935,6 +935,7 @@ impl<'d> Writer<'d> {
 
     fn handle_relocations(&mut self) {
         let got_address = self.got_address();
+        let got_plt_address = self.got_plt_address();
         let plt_address = self.plt_address();
         let sh_names = [self.sym_section.read().sh_name, self.dyn_sym_section.read().sh_name];
 
@@ -947,11 +948,24 @@ impl<'d> Writer<'d> {
         }
         let symbols = as_sym_tab(&self.sym_section);
         let dyn_symbols = as_sym_tab(&self.dyn_sym_section);
+        // the loader only fills the slots of imported symbols
+        for sym in symbols.iter().filter(|s| s.dynamic().is_none() && !s.is_tls()) {
+            if let Some(offset) = sym.got_offset() {
+                self.got_section.write().chunk_mut(0)[offset..offset + size_of::<u64>()]
+                    .copy_from_slice(&sym.st_value.to_le_bytes());
+            }
+        }
         for section in
             &mut self.sections.iter_mut().skip(1).filter(|s| !sh_names.contains(&s.read().sh_name))
         {
             for chunk in section.write().chunks_mut() {
-                chunk.apply_relocations(got_address, plt_address, &symbols, &dyn_symbols);
+                chunk.apply_relocations(
+                    got_address,
+                    got_plt_address,
+                    plt_address,
+                    &symbols,
+                    &dyn_symbols,
+                );
             }
         }
     }
diff --git a/src/elf/chunk.rs b/src/elf/chunk.rs
index 1b4c95b..dd0457a 100644
--- a/src/elf/chunk.rs
+++ b/src/elf/chunk.rs
@@ -49,6 +49,7 @@ impl Chunk {
     pub fn apply_relocations(
         &mut self,
         got_address: u64,
+        got_plt_address: u64,
         plt_address: u64,
         table: &SymbolTable,
         dyn_table: &SymbolTable,
@@ -62,6 +63,7 @@ impl Chunk {
                 table.get(*symbol_ref).unwrap(),
                 dyn_table,
                 got_address,
+                got_plt_address,
                 plt_address,
             );
         }
@@ -104,6 +106,15 @@ impl std::ops::DerefMut for Chunk {
     }
 }
 
+/// The `len` bytes in front of the field at `offset`.
+fn opcode(data: &[u8], offset: usize, len: usize) -> &[u8] {
+    offset.checked_sub(len).map_or(&[], |start| &data[start..offset])
+}
+
+fn fits(value: i64) -> bool {
+    TryInto::<i32>::try_into(value).is_ok()
+}
+
 fn apply_relocation(
     chunk_address: u64,
     data: &mut [u8],
@@ -111,6 +122,7 @@ fn apply_relocation(
     symbol: &crate::elf::Symbol<'_>,
     dyn_table: &SymbolTable,
     got_address: u64,
+    got_plt_address: u64,
     plt_address: u64,
 ) {
     // e.g. `stderr` will be undefined, but we might reference it. Since
@@ -142,11 +154,17 @@ fn apply_relocation(
             .unwrap(),
         R_X86_64_GOT32 => {
             let g: i64 = symbol.got_offset().unwrap().try_into().unwrap();
+            // relative to `_GLOBAL_OFFSET_TABLE_`
+            let base: i64 = got_plt_address.try_into().unwrap();
             (&mut data[offset..])
-                .write_i32::<LittleEndian>((g + got + a - p).try_into().unwrap())
+                .write_i32::<LittleEndian>((g + got + a - base).try_into().unwrap())
                 .unwrap()
         }
-        R_X86_64_GOTPCRELX if symbol.dynamic().is_none() => {
+        R_X86_64_GOTPCRELX
+            if symbol.dynamic().is_none()
+                && fits(s + a - p + 1)
+                && matches!(opcode(data, offset, 2), [0xff, 0x15] | [0xff, 0x25]) =>
+        {
             // -2 because the offset points to where we need to patch, but we want to
             // match the other two bytes to tell which instruction we're patching
             let buf = &mut data[offset - 2..];
@@ -169,13 +187,16 @@ fn apply_relocation(
                 ref x => unreachable!("{:?}", x),
             }
         }
-        R_X86_64_GOTPCRELX => {
+        R_X86_64_GOTPCREL | R_X86_64_GOTPCRELX => {
             let g: i64 = symbol.got_offset().unwrap().try_into().unwrap();
             let value: i32 = (g + got + a - p).try_into().unwrap();
             (&mut data[offset..]).write_i32::<LittleEndian>(value).unwrap();
         }
         R_X86_64_REX_GOTPCRELX => {
-            if symbol.dynamic().is_none() {
+            // only a `mov` to a register can be relaxed
+            let is_mov =
+                matches!(opcode(data, offset, 3), [0x48 | 0x4c, 0x8b, modrm] if modrm & 0xc7 == 5);
+            if symbol.dynamic().is_none() && is_mov && fits(s + a - p) {
                 let buf = &mut data[offset - 3..];
                 let instr = match buf[..3] {
                     [0x48, 0x8b, 0x05] => [0x48, 0x8d, 0x05], // mov 0x0(%rip),%rax -> lea 0x0(%rip),%rax
diff --git a/src/elf/symbol_table.rs b/src/elf/symbol_table.rs
index 718f3f9..6cd4cbe 100644
--- a/src/elf/symbol_table.rs
+++ b/src/elf/symbol_table.rs
@@ -175,6 +175,11 @@ impl<'p> SymbolTable<'p> {
         }
     }
 
+    /// All symbols, including those that don't end up in the output.
+    pub fn iter(&self) -> impl Iterator<Item = &Symbol<'p>> {
+        self.symbols.values().chain(&self.locals).chain(self.section_syms.values().flatten())
+    }
+
     pub fn sorted(&self) -> Vec<&Symbol<'p>> {
         let mut syms: Vec<&Symbol<'p>> = self.symbols.values().chain(self.locals.iter()).collect();
         // the GNU hash table needs all the symbols of a bucket to be next to each other
-- 
2.43.0


From 5f7d7b21c40d73520362de44fc9e6ad46ee4534b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:37:20 +0000
Subject: [PATCH 20/50] fix: give imported functions an address and imported
 objects aligned copies

Pointers to imported functions were null, copies of imported objects weren't
aligned, and .dynsym claimed a copy of objects that don't have one.
---
 src/elf.rs              | 32 +++++++++++++++++++++++++++-----
 src/elf/copy_rel.rs     | 15 ++++++++++++---
 src/elf/symbol_table.rs | 13 +++++++------
 src/symbol.rs           | 11 +++++++++++
 4 files changed, 57 insertions(+), 14 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 1323ef6..ee7c85a 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -664,9 +664,16 @@ impl<'d> Writer<'d> {
 
         let mut got_plt_section = self.got_plt_section.write();
         let symbols = as_sym_tab(&self.sym_section);
+        let mut dyn_symbols = as_mut_sym_tab(&self.dyn_sym_section);
         for (sym, offset) in &self.got_plt {
             let sym = symbols.get(*sym).unwrap();
             let plt_entry_addr = plt_entry_addr(plt_address, sym.plt_index().unwrap());
+            if sym.is_address_taken() {
+                // libraries have to use the same address
+                if let Some(dyn_symbol) = sym.dynamic().and_then(|d| dyn_symbols.get_mut(d)) {
+                    dyn_symbol.st_value = plt_entry_addr as u64;
+                }
+            }
             // + `PLT_ENTRY_JMP_INSTR_SIZE` since initially we want to jump back past the `jmp`
             // instruction of the plt entry
             got_plt_section.chunk_mut(0)[*offset..]
@@ -749,8 +756,11 @@ impl<'d> Writer<'d> {
 
         // handle dynamic object symbols
         let copy_rel = self.copy_rel_section.read();
-        as_mut_sym_tab(&self.dyn_sym_section)
-            .update_object_symbols(copy_rel.sh_addr, copy_rel.index());
+        as_mut_sym_tab(&self.dyn_sym_section).update_object_symbols(
+            copy_rel.sh_addr,
+            copy_rel.index(),
+            copy_rel.inner::<CopyRel>().unwrap(),
+        );
     }
 
     fn compute_tables(&mut self) {
@@ -799,6 +809,7 @@ impl<'d> Writer<'d> {
     }
 
     fn scan_relocations(&mut self) {
+        let dyn_sym_section = Arc::clone(&self.dyn_sym_section);
         for section in &mut self.sections {
             for chunk in section.write().chunks_mut() {
                 let mut symbols = as_mut_sym_tab(&self.sym_section);
@@ -821,9 +832,16 @@ impl<'d> Writer<'d> {
                                     if sym.is_tls() && r_type == R_X86_64_TLSGD { 2 } else { 1 };
                             }
                         }
-                        R_X86_64_PLT32 => {
+                        R_X86_64_PLT32 | R_X86_64_PC32 | R_X86_64_64 | R_X86_64_32
+                        | R_X86_64_32S => {
                             let sym = symbols.get_mut(*sym_ref).unwrap();
-                            if sym.dynamic().is_some() {
+                            let dyn_sym = sym.dynamic();
+                            let is_call = r_type == R_X86_64_PLT32;
+                            let is_object = || {
+                                let dyn_symbols = as_sym_tab(&dyn_sym_section);
+                                dyn_sym.map_or(false, |d| dyn_symbols[d].is_object())
+                            };
+                            if dyn_sym.is_some() && (is_call || !is_object()) {
                                 let len = self.got_plt.len() + 3;
                                 let offset =
                                     *self.got_plt.entry(*sym_ref).or_insert(len * size_of::<u64>());
@@ -835,7 +853,11 @@ impl<'d> Writer<'d> {
                                     .unwrap()
                                     .insert(*sym_ref);
                                 sym.set_plt_index(index);
-                            } else {
+                                if !is_call {
+                                    // the address of an imported function is that of its PLT entry
+                                    sym.set_address_taken();
+                                }
+                            } else if is_call {
                                 // replace PLT32 with PC32 since the symbol is local to us
                                 reloc.r_info -= r_type as u64;
                                 reloc.r_info += R_X86_64_PC32 as u64;
diff --git a/src/elf/copy_rel.rs b/src/elf/copy_rel.rs
index 273839d..117c9ba 100644
--- a/src/elf/copy_rel.rs
+++ b/src/elf/copy_rel.rs
@@ -3,10 +3,13 @@ use std::collections::HashMap;
 use goblin::elf64::section_header::{SectionHeader, SHF_ALLOC, SHF_WRITE, SHT_NOBITS};
 
 use super::{
+    round_to,
     section::{Synthesized, SynthesizedKind},
     Section, SymbolRef,
 };
 
+const MAX_ALIGNMENT: u64 = 64;
+
 #[derive(Default)]
 pub struct CopyRel {
     // the total size of the section
@@ -17,11 +20,17 @@ pub struct CopyRel {
 
 impl CopyRel {
     pub fn insert(&mut self, sym: SymbolRef, size: u64) -> u64 {
-        let offset = self.size;
+        // the symbol doesn't tell how it has to be aligned, but its size limits it
+        let align = size.next_power_of_two().min(MAX_ALIGNMENT);
+        let offset = round_to(self.size, align);
         self.slots.insert(sym, offset);
-        self.size += size;
+        self.size = offset + size;
         offset
     }
+
+    pub fn contains(&self, sym: SymbolRef) -> bool {
+        self.slots.contains_key(&sym)
+    }
 }
 
 impl<'p> Synthesized<'p> for CopyRel {
@@ -29,7 +38,7 @@ impl<'p> Synthesized<'p> for CopyRel {
         *sh = SectionHeader {
             sh_type: SHT_NOBITS,
             sh_flags: (SHF_ALLOC | SHF_WRITE) as u64,
-            sh_addralign: 64,
+            sh_addralign: MAX_ALIGNMENT,
             ..*sh
         }
     }
diff --git a/src/elf/symbol_table.rs b/src/elf/symbol_table.rs
index 6cd4cbe..41d040a 100644
--- a/src/elf/symbol_table.rs
+++ b/src/elf/symbol_table.rs
@@ -1,4 +1,4 @@
-use crate::elf::{Chunk, Section, Symbol};
+use crate::elf::{Chunk, CopyRel, Section, Symbol};
 use crate::serialize::Serialize;
 
 use goblin::elf64::{
@@ -215,11 +215,12 @@ impl<'p> SymbolTable<'p> {
     /// Updates all objects symbols to point to `.copyrel`.
     /// Note: This assumes that `st_value`s already have the correct offsets
     /// into `.copyrel`.
-    pub fn update_object_symbols(&mut self, copy_rel_addr: u64, index: usize) {
-        for sym in
-            self.symbols
-                .iter_mut()
-                .filter_map(|(_, sym)| if sym.is_object() { Some(sym) } else { None })
+    pub fn update_object_symbols(&mut self, copy_rel_addr: u64, index: usize, slots: &CopyRel) {
+        for sym in self
+            .symbols
+            .iter_mut()
+            .filter(|(name, _)| slots.contains(SymbolRef::Named(**name)))
+            .map(|(_, sym)| sym)
         {
             sym.st_value += copy_rel_addr;
             sym.st_shndx = index as u16;
diff --git a/src/symbol.rs b/src/symbol.rs
index 68ba144..063e9d5 100644
--- a/src/symbol.rs
+++ b/src/symbol.rs
@@ -21,6 +21,7 @@ pub struct Symbol<'r> {
     in_got_plt: Option<usize>,
     relocation_offset: Option<usize>,
     dynamic: Option<SymbolRef>,
+    address_taken: bool,
 }
 
 impl<'r> Symbol<'r> {
@@ -35,6 +36,7 @@ impl<'r> Symbol<'r> {
             in_got_plt: None,
             relocation_offset: None,
             dynamic: None,
+            address_taken: false,
         }
     }
 
@@ -98,6 +100,15 @@ impl<'r> Symbol<'r> {
         self.in_plt = Some(index);
     }
 
+    /// Whether something refers to this imported function other than by calling it.
+    pub const fn is_address_taken(&self) -> bool {
+        self.address_taken
+    }
+
+    pub fn set_address_taken(&mut self) {
+        self.address_taken = true;
+    }
+
     pub const fn higher_bind_than(&self, sym: Symbol<'_>) -> bool {
         let s1 = self.st_bind();
         let s2 = sym.st_bind();
-- 
2.43.0


From 04418a404cc80fdce8b32352c317cad0e404b2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:38 +0000
Subject: [PATCH 21/50] fix: size the copies of imported objects once they are
 known

---
 src/elf.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/elf.rs b/src/elf.rs
index ee7c85a..a9abb9f 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -933,6 +933,7 @@ impl<'d> Writer<'d> {
                     self.plt_rels.push(rela(offset, index, R_X86_64_JUMP_SLOT));
                 }
             }
+            self.copy_rel_section.write().expand();
             self.dyn_rel_section.write().sh_size = (self.dyn_rels.len() * size_of::<Rela>()) as u64;
             self.plt_rel_section.write().sh_size = (self.plt_rels.len() * size_of::<Rela>()) as u64;
 
-- 
2.43.0


From 44ba9ac845315ee4b35e98afc90ec73a6f680107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:44:07 +0000
Subject: [PATCH 22/50] fix: merge prioritised constructor arrays in order of
 priority

---
 src/elf.rs         | 29 ++++++++++++++++++++++++++++-
 src/elf/chunk.rs   | 39 ++++++++++++++++++++++++++++++++++++++-
 src/elf/section.rs | 23 +++++++++++++++++++++++
 3 files changed, 89 insertions(+), 2 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index a9abb9f..bd564ae 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -395,6 +395,11 @@ impl<'d> Writer<'d> {
         sh: &goblin::elf::SectionHeader,
         data: Option<Vec<u8>>,
     ) -> SectionRef<'d> {
+        let mut name = name.into();
+        let priority = array_priority(&name, sh.sh_type);
+        if let Some((array, _)) = priority {
+            name = array.into();
+        }
         let entry =
             self.shstr_section.write().inner_mut::<StringTable>().unwrap().get_or_create(name);
         let section = if entry.new {
@@ -423,7 +428,11 @@ impl<'d> Writer<'d> {
             let mut section = section.write();
             section.sh_flags |= sh.sh_flags & (SHF_ALLOC | SHF_WRITE | SHF_EXECINSTR) as u64;
             section.sh_addralign = max(section.sh_addralign, sh.sh_addralign);
-            section.add_input_chunk(data, sh.sh_size, sh.sh_addralign)
+            let chunk = section.add_input_chunk(data, sh.sh_size, sh.sh_addralign);
+            if let Some((_, priority)) = priority {
+                section.chunk_mut(chunk).set_priority(priority);
+            }
+            chunk
         };
         SectionRef { section, chunk }
     }
@@ -871,6 +880,13 @@ impl<'d> Writer<'d> {
     }
 
     fn assign_section_addresses(&mut self) {
+        for section in &self.sections {
+            let mut section = section.write();
+            if matches!(section.sh_type, SHT_INIT_ARRAY | SHT_FINI_ARRAY) {
+                section.sort_chunks();
+            }
+        }
+
         self.scan_relocations();
 
         self.resize_got_section();
@@ -1292,6 +1308,17 @@ fn try_add_dyn_entries(entries: &mut Vec<(DynTag, u64)>, names: &StringTable, sh
     };
 }
 
+/// The output section and the priority of a `.init_array.N` or `.fini_array.N` section.
+fn array_priority(name: &str, sh_type: u32) -> Option<(&'static str, u32)> {
+    let array = match sh_type {
+        SHT_INIT_ARRAY => ".init_array",
+        SHT_FINI_ARRAY => ".fini_array",
+        _ => return None,
+    };
+    let priority = name.strip_prefix(array)?.strip_prefix('.')?.parse().ok()?;
+    Some((array, priority))
+}
+
 fn p_type(names: &StringTable, sh: &SectionHeader) -> Option<u32> {
     match sh.sh_type {
         SHT_DYNAMIC => Some(PT_DYNAMIC),
diff --git a/src/elf/chunk.rs b/src/elf/chunk.rs
index dd0457a..977aae3 100644
--- a/src/elf/chunk.rs
+++ b/src/elf/chunk.rs
@@ -7,11 +7,18 @@ use std::{collections::HashSet, convert::TryInto, io::Write};
 
 use crate::elf::{plt_entry_addr, SymbolRef, SymbolTable};
 
+const DEFAULT_PRIORITY: u32 = u32::MAX;
+
 /// A part of a section.
 pub struct Chunk {
     address: Option<u64>,
     // where the chunk starts in its section
     offset: u64,
+    // the size and alignment that the chunk has in its input
+    size: u64,
+    alignment: u64,
+    // chunks with a lower value come first
+    priority: u32,
     data: Vec<u8>,
     symbols: HashSet<SymbolRef>,
     relocations: Vec<(Rela, SymbolRef)>,
@@ -19,7 +26,16 @@ pub struct Chunk {
 
 impl Chunk {
     pub fn new(data: Vec<u8>) -> Self {
-        Self { address: None, offset: 0, data, symbols: Default::default(), relocations: vec![] }
+        Self {
+            address: None,
+            offset: 0,
+            size: data.len() as u64,
+            alignment: 1,
+            priority: DEFAULT_PRIORITY,
+            data,
+            symbols: Default::default(),
+            relocations: vec![],
+        }
     }
 
     pub fn add_symbol(&mut self, sym_ref: SymbolRef) {
@@ -81,6 +97,27 @@ impl Chunk {
         self.offset
     }
 
+    pub fn set_layout(&mut self, size: u64, alignment: u64) {
+        self.size = size;
+        self.alignment = alignment;
+    }
+
+    pub fn size(&self) -> u64 {
+        self.size
+    }
+
+    pub fn alignment(&self) -> u64 {
+        self.alignment
+    }
+
+    pub fn set_priority(&mut self, priority: u32) {
+        self.priority = priority;
+    }
+
+    pub fn priority(&self) -> u32 {
+        self.priority
+    }
+
     pub fn address(&self) -> Option<u64> {
         self.address
     }
diff --git a/src/elf/section.rs b/src/elf/section.rs
index f18e2f7..efab2ee 100644
--- a/src/elf/section.rs
+++ b/src/elf/section.rs
@@ -195,10 +195,33 @@ impl<'p> Section<'p> {
             Chunk::new(data.unwrap_or_else(|| vec![0; size as usize]))
         };
         chunk.set_offset(offset);
+        chunk.set_layout(size, align);
         self.sh_size = offset + size;
         self.add_chunk(chunk)
     }
 
+    /// Puts the chunks with the lowest priority value first. Their indexes change.
+    pub fn sort_chunks(&mut self) {
+        if self.chunks.windows(2).all(|c| c[0].priority() <= c[1].priority()) {
+            return;
+        }
+        self.chunks.sort_by_key(|c| c.priority());
+        let mut end = 0;
+        for i in 0..self.chunks.len() {
+            let offset = round_to(end, self.chunks[i].alignment());
+            if let Some(last) = i.checked_sub(1).map(|i| &mut self.chunks[i]) {
+                let size = (offset - last.offset()) as usize;
+                last.resize(size, 0);
+            }
+            let chunk = &mut self.chunks[i];
+            let size = chunk.size();
+            chunk.truncate(size as usize);
+            chunk.set_offset(offset);
+            end = offset + size;
+        }
+        self.sh_size = end;
+    }
+
     pub fn last_chunk_index(&self) -> usize {
         self.chunks.len() - 1
     }
-- 
2.43.0


From 188083689d2f5b0b14013d12c22acd0398eebb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:48:00 +0000
Subject: [PATCH 23/50] fix: allocate common symbols

---
 src/elf.rs              | 31 ++++++++++++++++++++++++++++++-
 src/elf/symbol_table.rs | 25 +++++++++++++++++++++----
 src/symbol.rs           | 12 +++++++++++-
 3 files changed, 62 insertions(+), 6 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index bd564ae..b1084ad 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -10,7 +10,7 @@ use goblin::elf64::{
         SHT_DYNSYM, SHT_FINI_ARRAY, SHT_GNU_HASH, SHT_HASH, SHT_INIT_ARRAY, SHT_NOBITS,
         SHT_PROGBITS, SHT_RELA, SHT_STRTAB,
     },
-    sym::Sym,
+    sym::{Sym, STT_OBJECT},
 };
 use parking_lot::{
     MappedRwLockReadGuard as MapRGuard, MappedRwLockWriteGuard as MapWGuard,
@@ -1017,7 +1017,36 @@ impl<'d> Writer<'d> {
     // section header 1
     // section header 2
     // ...
+    /// Allocates the symbols that are defined by no section.
+    fn allocate_common_symbols(&mut self) {
+        let mut common = as_sym_tab(&self.sym_section)
+            .named()
+            .values()
+            .filter(|s| s.is_common())
+            .map(|s| (s.st_name, s.st_size, s.st_value))
+            .collect::<Vec<_>>();
+        common.sort_unstable();
+        for (st_name, size, alignment) in common {
+            let bss = goblin::elf::SectionHeader {
+                sh_type: SHT_NOBITS,
+                sh_flags: (SHF_ALLOC | SHF_WRITE) as u64,
+                sh_size: size,
+                sh_addralign: max(alignment, 1),
+                ..Default::default()
+            };
+            let section_ref = self.add_section(".bss", &bss, None);
+            let sym_ref = SymbolRef::Named(st_name);
+            if let Some(symbol) = as_mut_sym_tab(&self.sym_section).get_mut(sym_ref) {
+                symbol.st_value = 0;
+                symbol.st_info = (symbol.st_bind() << 4) | STT_OBJECT;
+            }
+            section_ref.section.write().chunk_mut(section_ref.chunk).add_symbol(sym_ref);
+        }
+    }
+
     pub fn compute_sections(&mut self) {
+        self.allocate_common_symbols();
+
         self.assign_section_addresses();
 
         self.handle_special_symbols();
diff --git a/src/elf/symbol_table.rs b/src/elf/symbol_table.rs
index 41d040a..e929d2c 100644
--- a/src/elf/symbol_table.rs
+++ b/src/elf/symbol_table.rs
@@ -113,8 +113,8 @@ impl<'p> SymbolTable<'p> {
                 // we found another definition of this global symbol
                 if old_sym.is_global()
                     && new_sym.is_global()
-                    && old_sym.st_shndx != SHN_UNDEF as u16
-                    && new_sym.st_shndx != SHN_UNDEF as u16
+                    && old_sym.is_allocated()
+                    && new_sym.is_allocated()
                 {
                     log::trace!(
                         "Old defition: {:#?} vs new definition: {:#?}",
@@ -129,7 +129,11 @@ impl<'p> SymbolTable<'p> {
                     if old_sym.is_undefined() && !old_sym.higher_bind_than(new_sym) {
                         old_sym.st_info = (new_sym.st_bind() << 4) | old_sym.st_type();
                     }
-                } else if old_sym.is_undefined() || !old_sym.higher_bind_than(new_sym) {
+                } else if old_sym.is_common() && new_sym.is_common() {
+                    // they share an allocation that is good enough for all of them
+                    old_sym.st_value = old_sym.st_value.max(new_sym.st_value);
+                    old_sym.st_size = old_sym.st_size.max(new_sym.st_size);
+                } else if is_better_definition(old_sym, &new_sym) {
                     old_sym.st_info = new_sym.st_info;
                     old_sym.st_other = new_sym.st_other;
                     old_sym.st_shndx = new_sym.st_shndx;
@@ -153,7 +157,7 @@ impl<'p> SymbolTable<'p> {
         !new_sym.is_undefined()
             && match self.symbols.get(&elf_sym.st_name) {
                 Some(old_sym) if new_sym.st_type() != STT_SECTION && !is_private(&new_sym) => {
-                    old_sym.is_undefined() || !old_sym.higher_bind_than(new_sym)
+                    is_better_definition(old_sym, &new_sym)
                 }
                 _ => true,
             }
@@ -268,6 +272,19 @@ impl<'p> Synthesized<'p> for SymbolTable<'p> {
     }
 }
 
+/// Whether `new_sym` is the definition to use instead of `old_sym`.
+fn is_better_definition(old_sym: &Symbol<'_>, new_sym: &Symbol<'_>) -> bool {
+    if old_sym.is_undefined() {
+        return true;
+    }
+    match (old_sym.is_common(), new_sym.is_common()) {
+        // a common symbol takes precedence over weak definitions, but not over others
+        (true, false) => !new_sym.is_weak(),
+        (false, true) => old_sym.is_weak(),
+        _ => !old_sym.higher_bind_than(*new_sym),
+    }
+}
+
 /// Whether `sym` can only be referred to by the object it comes from. The null symbol doesn't
 /// count, because it is the same one in all objects.
 fn is_private(sym: &Symbol) -> bool {
diff --git a/src/symbol.rs b/src/symbol.rs
index 063e9d5..f764c0d 100644
--- a/src/symbol.rs
+++ b/src/symbol.rs
@@ -6,7 +6,7 @@ use std::{
 };
 
 use goblin::elf64::{
-    section_header::SHN_UNDEF,
+    section_header::{SHN_COMMON, SHN_UNDEF},
     sym::{Sym, STB_GLOBAL, STB_LOCAL, STB_WEAK, STT_OBJECT, STT_TLS},
 };
 
@@ -72,6 +72,16 @@ impl<'r> Symbol<'r> {
         self.sym.st_shndx == SHN_UNDEF as u16
     }
 
+    /// Whether space for the symbol still has to be allocated, `st_value` being its alignment.
+    pub const fn is_common(&self) -> bool {
+        self.sym.st_shndx == SHN_COMMON as u16
+    }
+
+    /// Whether an input says where the symbol is.
+    pub const fn is_allocated(&self) -> bool {
+        !self.is_undefined() && !self.is_common()
+    }
+
     pub const fn reference(&self) -> &Path {
         self.reference
     }
-- 
2.43.0


From 50d86bb04506892351fb45f90a535ebe74d8d3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:48:02 +0000
Subject: [PATCH 24/50] fix: report undefined symbols before applying
 relocations

---
 src/elf.rs | 17 ++++++++++-------
 src/lib.rs |  1 +
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index b1084ad..92dfc4b 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -972,19 +972,22 @@ impl<'d> Writer<'d> {
         self.patch_plt_and_got_plt();
     }
 
-    fn handle_relocations(&mut self) {
-        let got_address = self.got_address();
-        let got_plt_address = self.got_plt_address();
-        let plt_address = self.plt_address();
+    fn patch_symbol_values(&mut self) {
         let sh_names = [self.sym_section.read().sh_name, self.dyn_sym_section.read().sh_name];
-
-        // first patch symbol values
         for section in
             &mut self.sections.iter_mut().skip(1).filter(|s| !sh_names.contains(&s.read().sh_name))
         {
             let mut symbols = as_mut_sym_tab(&self.sym_section);
             section.write().patch_symbol_values(&mut symbols);
         }
+    }
+
+    /// Applies the relocations. All the symbols that they refer to have to be defined.
+    pub fn apply_relocations(&mut self) {
+        let got_address = self.got_address();
+        let got_plt_address = self.got_plt_address();
+        let plt_address = self.plt_address();
+        let sh_names = [self.sym_section.read().sh_name, self.dyn_sym_section.read().sh_name];
         let symbols = as_sym_tab(&self.sym_section);
         let dyn_symbols = as_sym_tab(&self.dyn_sym_section);
         // the loader only fills the slots of imported symbols
@@ -1051,7 +1054,7 @@ impl<'d> Writer<'d> {
 
         self.handle_special_symbols();
 
-        self.handle_relocations();
+        self.patch_symbol_values();
 
         self.compute_tables();
 
diff --git a/src/lib.rs b/src/lib.rs
index dd26219..0952d53 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -285,6 +285,7 @@ impl Linker {
             return Err(ErrorType::Other(format_list(&names)))
                 .map_path_err(self.options.output.as_path());
         }
+        writer.apply_relocations();
         writer.write_to_disk();
         Ok(())
     }
-- 
2.43.0


From 25f6801140660fab3bd4657d9d0f6c552666bfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:58:35 +0000
Subject: [PATCH 25/50] fix: reject input sections that only the linker can
 fill

---
 src/elf.rs | 20 ++++++++++++++++++--
 src/lib.rs | 12 +++++++-----
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 92dfc4b..8fd3a58 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -144,6 +144,8 @@ pub struct Writer<'d> {
     eh: Header,
     dyn_rels: Vec<Rela>,
     plt_rels: Vec<Rela>,
+    // how many of `sections` are our own
+    num_reserved: usize,
     sections: Vec<SectionPtr<'d>>,
     // where the current definition of each symbol lives
     definitions: HashMap<SymbolRef, SectionRef<'d>>,
@@ -360,6 +362,7 @@ impl<'d> Writer<'d> {
             eh,
             dyn_rels: vec![],
             plt_rels: vec![],
+            num_reserved: sections.len(),
             sections,
             definitions: Default::default(),
             // first entry reserved
@@ -442,9 +445,22 @@ impl<'d> Writer<'d> {
         name: impl Into<Name>,
         section: &goblin::elf::SectionHeader,
         data: Option<&[u8]>,
-    ) -> SectionRef<'d> {
+    ) -> Result<SectionRef<'d>, ErrorType> {
         let data = data.map(|v| v.to_owned());
-        self.add_section(name, section, data)
+        let name = name.into();
+        if self.is_reserved(&name) {
+            return Err(ErrorType::Other(format!("Section {} is reserved.", &name as &str)));
+        }
+        Ok(self.add_section(name, section, data))
+    }
+
+    /// Whether it's only us who can fill the section called `name`.
+    fn is_reserved(&self, name: &str) -> bool {
+        let names = as_str_tab(&self.shstr_section);
+        name != ".interp"
+            && names
+                .get(name.to_string())
+                .map_or(false, |e| e.index > 0 && e.index < self.num_reserved)
     }
 
     fn add_symbol_inner<'s>(
diff --git a/src/lib.rs b/src/lib.rs
index 0952d53..8131e34 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -64,11 +64,13 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
         {
             let name =
                 get_section_name(&self.elf, section.sh_name).map_path_err(self.input.path)?;
-            let section_ref = writer.push_section(
-                name.to_owned(),
-                section,
-                section.file_range().map(|r| &self.input.data[r]),
-            );
+            let section_ref = writer
+                .push_section(
+                    name.to_owned(),
+                    section,
+                    section.file_range().map(|r| &self.input.data[r]),
+                )
+                .map_path_err(self.input.path)?;
             log::trace!(
                 "Section '{}:{}' of {:?} mapped to {:?}",
                 i,
-- 
2.43.0


From 6b9a6ba6daf8866ac4f6b384ee4f3fda980fe5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:57:21 +0000
Subject: [PATCH 26/50] fix: AS_NEEDED in a linker script ends at its
 parenthesis

---
 src/linker_script.rs | 37 +++++++++++++++++++++++++++++--------
 src/main.rs          |  7 +++----
 2 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/src/linker_script.rs b/src/linker_script.rs
index e072128..4e17f2c 100644
--- a/src/linker_script.rs
+++ b/src/linker_script.rs
@@ -32,8 +32,11 @@ where
     skip_many(skip_many1(space()).or(parse_comment()))
 }
 
+/// Some consecutive arguments, and whether they are inside of an AS_NEEDED block.
+pub type Args = (Vec<String>, bool);
+
 /// Parses a GROUP command like: GROUP ( libgcc_s.so.1 -lgcc )
-pub fn parse_group_command<Input>() -> impl Parser<Input, Output = Vec<String>>
+pub fn parse_group_command<Input>() -> impl Parser<Input, Output = Vec<Args>>
 where
     Input: Stream<Token = char>,
     Input::Error: ParseError<Input::Token, Input::Range, Input::Position>,
@@ -41,12 +44,14 @@ where
     let args = (
         skip_ws_and_comments(),
         sep_end_by(
-            attempt(parse_as_needed_command()).or(parse_arg().map(|v| vec![v])),
+            attempt(parse_as_needed_command())
+                .map(|v| (v.into_iter().skip(1).collect(), true))
+                .or(parse_arg().map(|v| (vec![v], false))),
             skip_ws_and_comments(),
         ),
     );
     (string("GROUP"), skip_ws_and_comments(), between(char('('), char(')'), args))
-        .map(|(_, _, s): (_, _, ((), Vec<Vec<String>>))| s.1.into_iter().flatten().collect())
+        .map(|(_, _, s): (_, _, ((), Vec<Args>))| s.1)
 }
 
 /// Parses an AS_NEEDED block like: AS_NEEDED ( foo.so )
@@ -66,7 +71,7 @@ where
 }
 
 /// Parses a OUTPUT_FORMAT command like: OUTPUT_FORMAT(elf64-x86-64)
-pub fn parse_output_format_command<Input>() -> impl Parser<Input, Output = Vec<String>>
+pub fn parse_output_format_command<Input>() -> impl Parser<Input, Output = Vec<Args>>
 where
     Input: Stream<Token = char>,
     Input::Error: ParseError<Input::Token, Input::Range, Input::Position>,
@@ -77,16 +82,19 @@ where
         .map(|(_, _, _): (_, _, (_, String, _))| vec![])
 }
 
-pub fn parse(mut input: &str) -> Result<Vec<String>, StringStreamError> {
-    let mut new_args = vec![];
+pub fn parse_args(mut input: &str) -> Result<Vec<Args>, StringStreamError> {
+    let mut new_args: Vec<Args> = vec![];
     let mut line = (
         skip_ws_and_comments(),
         optional(choice((parse_group_command(), parse_output_format_command()))),
     );
     loop {
         let ((_, args), leftover) = line.parse(input)?;
-        if let Some(args) = args {
-            new_args.extend(args);
+        for (args, as_needed) in args.into_iter().flatten() {
+            match new_args.last_mut() {
+                Some(last) if !as_needed && !last.1 => last.0.extend(args),
+                _ => new_args.push((args, as_needed)),
+            }
         }
         if leftover.len() == input.len() {
             // there is something that we don't understand
@@ -100,6 +108,19 @@ pub fn parse(mut input: &str) -> Result<Vec<String>, StringStreamError> {
     Ok(new_args)
 }
 
+/// All the arguments of a script, one after the other.
+#[cfg(test)]
+fn parse(input: &str) -> Result<Vec<String>, StringStreamError> {
+    let mut flat = vec![];
+    for (args, as_needed) in parse_args(input)? {
+        if as_needed {
+            flat.push("--as-needed".into());
+        }
+        flat.extend(args);
+    }
+    Ok(flat)
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/main.rs b/src/main.rs
index 36c49b1..bd84d44 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -58,12 +58,11 @@ fn main() -> Result<(), String> {
         if text.trim().is_empty() {
             return Err(err(&"The file is empty."));
         }
-        let new_args = linker_script::parse(&text).map_err(|e| err(&e))?;
-        if !new_args.is_empty() {
-            args.as_needed = as_needed;
+        for (new_args, only_if_needed) in linker_script::parse_args(&text).map_err(|e| err(&e))? {
+            args.as_needed = as_needed || only_if_needed;
             handle_linker_args(&mut new_args.into_iter().peekable(), &mut args)?;
-            search_for_inputs(&mut args)?;
         }
+        search_for_inputs(&mut args)?;
         seen.push(script);
     }
     log::debug!("{:#?}", args);
-- 
2.43.0


From 2fbd5c82625adc59c42ecea3687364c5bdc58d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:02:17 +0000
Subject: [PATCH 27/50] fix: refuse to link over an input

---
 src/main.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index bd84d44..b9a2337 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -65,6 +65,7 @@ fn main() -> Result<(), String> {
         search_for_inputs(&mut args)?;
         seen.push(script);
     }
+    check_output(&args, &seen)?;
     log::debug!("{:#?}", args);
     let linker = dld::Linker { options: args.opts, objects: args.objects, archives: args.archives };
     if let Err(e) = linker.link() {
@@ -75,6 +76,23 @@ fn main() -> Result<(), String> {
     }
 }
 
+/// Linking over one of the inputs would destroy it before it's read.
+fn check_output(args: &AppArgs, scripts: &[PathBuf]) -> Result<(), String> {
+    let canonicalize = |path: &PathBuf| match path.canonicalize() {
+        Ok(path) => Ok(Some(path)),
+        Err(e) if e.kind() == std::io::ErrorKind::NotFound => Ok(None),
+        Err(e) => Err(format!("`{}`: {}", path.display(), e)),
+    };
+    let output = canonicalize(&args.opts.output)?;
+    let libs = args.opts.shared_libs.iter().map(|(lib, _)| lib);
+    for input in args.objects.iter().chain(&args.archives).chain(scripts).chain(libs) {
+        if output.is_some() && canonicalize(input)? == output {
+            return Err(format!("`{}`: The input file is the output file.", input.display()));
+        }
+    }
+    Ok(())
+}
+
 #[derive(Debug)]
 enum FileType {
     Archive,
-- 
2.43.0


From 1559f996ab6c7961cdd3404520af31cd3bb3bddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:15:17 +0000
Subject: [PATCH 28/50] fix: all the names of a copied object mean its one copy

---
 src/elf.rs          | 72 ++++++++++++++++++++++++++++++++++++++-------
 src/elf/copy_rel.rs |  9 ++++++
 src/lib.rs          | 37 +++++++++++++++++++++--
 3 files changed, 106 insertions(+), 12 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 8fd3a58..47a9a48 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -149,6 +149,8 @@ pub struct Writer<'d> {
     sections: Vec<SectionPtr<'d>>,
     // where the current definition of each symbol lives
     definitions: HashMap<SymbolRef, SectionRef<'d>>,
+    // the imported symbol that stands for all the names of an object that we copy
+    aliases: HashMap<SymbolRef, SymbolRef>,
     got_len: usize,
     got_plt: HashMap<SymbolRef, usize>,
     dyn_entries: Vec<(DynTag, u64)>,
@@ -365,6 +367,7 @@ impl<'d> Writer<'d> {
             num_reserved: sections.len(),
             sections,
             definitions: Default::default(),
+            aliases: Default::default(),
             // first entry reserved
             got_len: 1,
             got_plt: Default::default(),
@@ -551,6 +554,45 @@ impl<'d> Writer<'d> {
         r.map(Some)
     }
 
+    /// Makes all the names that the library at `reference` has for one of its objects refer to the
+    /// same copy of it, if we need one. The largest symbol has to come first.
+    pub fn add_aliases(
+        &mut self,
+        names: &[(Sym, &str)],
+        reference: &'d Path,
+    ) -> Result<(), ErrorType> {
+        if !names.iter().any(|(_, name)| self.is_import(name, reference) == Some(true)) {
+            return Ok(());
+        }
+        let mut copied = None;
+        for (sym, name) in names {
+            if self.is_import(name, reference) == Some(false) {
+                continue;
+            }
+            let alias = Self::add_symbol_inner(
+                Sym { st_shndx: SHN_UNDEF as u16, st_value: 0, ..*sym },
+                None,
+                name,
+                reference,
+                self.dyn_sym_str_section.write().inner_mut::<StringTable>().unwrap(),
+                self.dyn_sym_section.write().inner_mut::<SymbolTable<'d>>().unwrap(),
+                &mut Default::default(),
+            )?;
+            self.aliases.insert(alias, *copied.get_or_insert(alias));
+        }
+        Ok(())
+    }
+
+    /// Whether our global symbol called `name`, if there is one, is imported from `reference`.
+    fn is_import(&self, name: &str, reference: &Path) -> Option<bool> {
+        let entry =
+            self.sym_str_section.read().inner::<StringTable>().unwrap().get(name.to_string())?;
+        let symbols = as_sym_tab(&self.sym_section);
+        let sym = symbols.get(SymbolRef::Named(entry.offset as u32))?;
+        let dyn_symbols = as_sym_tab(&self.dyn_sym_section);
+        Some(sym.dynamic().map_or(false, |d| dyn_symbols[d].reference() == reference))
+    }
+
     pub fn symbol_name(&self, sym: SymbolRef) -> Option<MapRGuard<str>> {
         if let SymbolRef::Named(st_name) = sym {
             Some(MapRGuard::map(as_str_tab(&self.sym_str_section), |s| {
@@ -950,22 +992,32 @@ impl<'d> Writer<'d> {
                 }
                 let dyn_symbol = &mut dyn_syms.get_mut(dyn_sym).unwrap();
                 if dyn_symbol.is_object() {
-                    let size = dyn_symbol.st_size;
-                    let offset = self
-                        .copy_rel_section
-                        .write()
-                        .inner_mut::<CopyRel>()
-                        .unwrap()
-                        .insert(dyn_sym, size);
-                    self.dyn_rels.push(rela(offset as usize, index, R_X86_64_COPY));
-                    dyn_symbol.st_value = offset;
+                    let copied = *self.aliases.get(&dyn_sym).unwrap_or(&dyn_sym);
+                    let mut copy_rel = self.copy_rel_section.write();
+                    let slots = copy_rel.inner_mut::<CopyRel>().unwrap();
+                    if !slots.contains(copied) {
+                        let copied_symbol = dyn_syms.get_mut(copied).unwrap();
+                        let offset = slots.insert(copied, copied_symbol.st_size);
+                        copied_symbol.st_value = offset;
+                        let index = dyn_sym_indices[&copied.st_name()];
+                        self.dyn_rels.push(rela(offset as usize, index, R_X86_64_COPY));
+                    }
                 }
                 if let Some(offset) = sym.got_plt_offset() {
                     sym.set_relocation_offset(self.plt_rels.len());
                     self.plt_rels.push(rela(offset, index, R_X86_64_JUMP_SLOT));
                 }
             }
-            self.copy_rel_section.write().expand();
+            let mut copy_rel = self.copy_rel_section.write();
+            let slots = copy_rel.inner_mut::<CopyRel>().unwrap();
+            for (alias, copied) in &self.aliases {
+                if let Some(offset) = slots.get(*copied) {
+                    slots.set(*alias, offset);
+                    dyn_syms.get_mut(*alias).unwrap().st_value = offset;
+                }
+            }
+            copy_rel.expand();
+            drop(copy_rel);
             self.dyn_rel_section.write().sh_size = (self.dyn_rels.len() * size_of::<Rela>()) as u64;
             self.plt_rel_section.write().sh_size = (self.plt_rels.len() * size_of::<Rela>()) as u64;
 
diff --git a/src/elf/copy_rel.rs b/src/elf/copy_rel.rs
index 117c9ba..d545518 100644
--- a/src/elf/copy_rel.rs
+++ b/src/elf/copy_rel.rs
@@ -28,6 +28,15 @@ impl CopyRel {
         offset
     }
 
+    /// Lets `sym` share the slot at `offset`.
+    pub fn set(&mut self, sym: SymbolRef, offset: u64) {
+        self.slots.insert(sym, offset);
+    }
+
+    pub fn get(&self, sym: SymbolRef) -> Option<u64> {
+        self.slots.get(&sym).copied()
+    }
+
     pub fn contains(&self, sym: SymbolRef) -> bool {
         self.slots.contains_key(&sym)
     }
diff --git a/src/lib.rs b/src/lib.rs
index 8131e34..46771ad 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -8,17 +8,22 @@ mod utils;
 use error::{Error, ErrorExt, ErrorType};
 use goblin::{
     archive::{self, Archive},
-    elf::{sym::STB_LOCAL, Elf},
+    elf::{
+        sym::{STB_LOCAL, STT_OBJECT},
+        Elf,
+    },
     elf64::{
         header::EM_X86_64,
         reloc::Rela,
         section_header::{
             SHT_DYNAMIC, SHT_DYNSYM, SHT_REL, SHT_RELA, SHT_SHLIB, SHT_STRTAB, SHT_SYMTAB,
         },
+        sym::Sym,
     },
 };
 use std::{
-    collections::{HashMap, HashSet},
+    cmp::Reverse,
+    collections::{BTreeMap, HashMap, HashSet},
     fs::read,
     path::{Path, PathBuf},
 };
@@ -190,6 +195,33 @@ impl Linker {
         Ok(())
     }
 
+    /// A library may have further names for an object that we copy, all of which have to mean the copy.
+    fn add_aliases<'o>(&'o self, writer: &mut elf::Writer<'o>) -> Result<(), Error<'o>> {
+        let mut defined = HashSet::new();
+        for (lib, _) in &self.options.shared_libs {
+            let path = lib.as_path();
+            let data = read(path).map_path_err(path)?;
+            let elf = parse_elf(&data).map_path_err(path)?;
+            let mut objects: BTreeMap<_, Vec<(Sym, &str)>> = BTreeMap::new();
+            let mut names = vec![];
+            for sym in elf.dynsyms.iter().filter(|s| s.st_shndx != 0 && s.st_bind() != STB_LOCAL) {
+                let name = get_dyn_symbol_name(&elf, sym.st_name).map_path_err(path)?;
+                // the definition of the first library takes precedence
+                if sym.st_type() == STT_OBJECT && sym.st_size > 0 && !defined.contains(name) {
+                    let place = (sym.st_shndx, sym.st_value);
+                    objects.entry(place).or_default().push((sym.into(), name));
+                }
+                names.push(name.to_string());
+            }
+            for aliases in objects.values_mut().filter(|aliases| aliases.len() > 1) {
+                aliases.sort_by_key(|(sym, _)| Reverse(sym.st_size));
+                writer.add_aliases(aliases, path).map_path_err(path)?;
+            }
+            defined.extend(names);
+        }
+        Ok(())
+    }
+
     fn process_archives_containing<'o>(
         &'o self,
         symbols: &[elf::SymbolRef],
@@ -275,6 +307,7 @@ impl Linker {
             }
         }
         self.add_needed_libs(&mut writer)?;
+        self.add_aliases(&mut writer)?;
         writer.compute_sections();
         let mut undefined = writer.undefined_symbols();
         // nothing has to define what is only referenced weakly
-- 
2.43.0


From 3715aaea19516e9b356684470520b2f28fd88623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:35:47 +0000
Subject: [PATCH 29/50] fix: thread-local symbols get their place in the TLS
 block

---
 src/elf.rs              | 93 +++++++++++++++++++++++++++++++++++------
 src/elf/chunk.rs        |  8 +++-
 src/elf/symbol_table.rs |  7 ++++
 src/symbol.rs           | 11 +++++
 4 files changed, 104 insertions(+), 15 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 47a9a48..cbfb521 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -3,12 +3,14 @@ use crate::{
 };
 use goblin::elf64::{
     header::{Header, ELFCLASS64, ELFDATA2LSB, ELFMAG, EM_X86_64, ET_EXEC, EV_CURRENT},
-    program_header::{ProgramHeader, PF_R, PF_W, PF_X, PT_DYNAMIC, PT_INTERP, PT_LOAD, PT_PHDR},
+    program_header::{
+        ProgramHeader, PF_R, PF_W, PF_X, PT_DYNAMIC, PT_INTERP, PT_LOAD, PT_PHDR, PT_TLS,
+    },
     reloc::{r_type, Rela, *},
     section_header::{
-        SectionHeader, SHF_ALLOC, SHF_EXECINSTR, SHF_WRITE, SHN_ABS, SHN_UNDEF, SHT_DYNAMIC,
-        SHT_DYNSYM, SHT_FINI_ARRAY, SHT_GNU_HASH, SHT_HASH, SHT_INIT_ARRAY, SHT_NOBITS,
-        SHT_PROGBITS, SHT_RELA, SHT_STRTAB,
+        SectionHeader, SHF_ALLOC, SHF_EXECINSTR, SHF_TLS, SHF_WRITE, SHN_ABS, SHN_UNDEF,
+        SHT_DYNAMIC, SHT_DYNSYM, SHT_FINI_ARRAY, SHT_GNU_HASH, SHT_HASH, SHT_INIT_ARRAY,
+        SHT_NOBITS, SHT_PROGBITS, SHT_RELA, SHT_STRTAB,
     },
     sym::{Sym, STT_OBJECT},
 };
@@ -855,7 +857,8 @@ impl<'d> Writer<'d> {
             let mut data = Vec::with_capacity(section.sh_size as usize);
             for rel in rels {
                 match r_type(rel.r_info) {
-                    R_X86_64_GLOB_DAT => rel.r_offset += got_addr,
+                    R_X86_64_GLOB_DAT | R_X86_64_TPOFF64 | R_X86_64_DTPMOD64
+                    | R_X86_64_DTPOFF64 => rel.r_offset += got_addr,
                     R_X86_64_JUMP_SLOT => rel.r_offset += got_plt_addr,
                     R_X86_64_COPY => rel.r_offset += copy_rel_addr,
                     _ => {}
@@ -889,14 +892,19 @@ impl<'d> Writer<'d> {
                         | R_X86_64_GOTPC32
                         | R_X86_64_GOTPCRELX
                         | R_X86_64_REX_GOTPCRELX
-                        | R_X86_64_TLSGD
                         | R_X86_64_GOTTPOFF => {
                             let sym = symbols.get_mut(*sym_ref).unwrap();
                             if sym.got_offset().is_none() {
                                 sym.set_got_offset(self.got_len * size_of::<u64>());
+                                self.got_len += 1;
+                            }
+                        }
+                        R_X86_64_TLSGD => {
+                            let sym = symbols.get_mut(*sym_ref).unwrap();
+                            if sym.tls_index_offset().is_none() {
+                                sym.set_tls_index_offset(self.got_len * size_of::<u64>());
                                 // For TLSGD relocations we need to allocate two slots
-                                self.got_len +=
-                                    if sym.is_tls() && r_type == R_X86_64_TLSGD { 2 } else { 1 };
+                                self.got_len += 2;
                             }
                         }
                         R_X86_64_PLT32 | R_X86_64_PC32 | R_X86_64_64 | R_X86_64_32
@@ -988,7 +996,17 @@ impl<'d> Writer<'d> {
             for (sym, dyn_sym) in dynamic {
                 let index = dyn_sym_indices[&dyn_sym.st_name()];
                 if let Some(offset) = sym.got_offset() {
-                    self.dyn_rels.push(rela(offset, index, R_X86_64_GLOB_DAT));
+                    let r_type = if dyn_syms[dyn_sym].is_tls() {
+                        R_X86_64_TPOFF64
+                    } else {
+                        R_X86_64_GLOB_DAT
+                    };
+                    self.dyn_rels.push(rela(offset, index, r_type));
+                }
+                if let Some(offset) = sym.tls_index_offset() {
+                    self.dyn_rels.push(rela(offset, index, R_X86_64_DTPMOD64));
+                    let offset = offset + size_of::<u64>();
+                    self.dyn_rels.push(rela(offset, index, R_X86_64_DTPOFF64));
                 }
                 let dyn_symbol = &mut dyn_syms.get_mut(dyn_sym).unwrap();
                 if dyn_symbol.is_object() {
@@ -1048,6 +1066,17 @@ impl<'d> Writer<'d> {
             let mut symbols = as_mut_sym_tab(&self.sym_section);
             section.write().patch_symbol_values(&mut symbols);
         }
+        // the value of a thread-local symbol is its offset in the TLS block
+        if let Some(tls) = self.tls_segment() {
+            let mut symbols = as_mut_sym_tab(&self.sym_section);
+            for sym in symbols.iter_mut().filter(|s| s.is_tls() && !s.is_undefined()) {
+                sym.st_value -= tls.p_vaddr;
+            }
+        }
+    }
+
+    fn tls_segment(&self) -> Option<&ProgramHeader> {
+        self.program_headers.iter().find(|ph| ph.p_type == PT_TLS)
     }
 
     /// Applies the relocations. All the symbols that they refer to have to be defined.
@@ -1058,11 +1087,24 @@ impl<'d> Writer<'d> {
         let sh_names = [self.sym_section.read().sh_name, self.dyn_sym_section.read().sh_name];
         let symbols = as_sym_tab(&self.sym_section);
         let dyn_symbols = as_sym_tab(&self.dyn_sym_section);
+        // the thread pointer is at the end of our TLS block
+        let tls_size = self
+            .tls_segment()
+            .map_or(0, |ph| round_to(ph.p_vaddr + ph.p_memsz, ph.p_align) - ph.p_vaddr);
         // the loader only fills the slots of imported symbols
-        for sym in symbols.iter().filter(|s| s.dynamic().is_none() && !s.is_tls()) {
+        for sym in symbols.iter().filter(|s| s.dynamic().is_none()) {
+            let mut got = self.got_section.write();
+            let mut fill = |offset: usize, value: u64| {
+                got.chunk_mut(0)[offset..offset + size_of::<u64>()]
+                    .copy_from_slice(&value.to_le_bytes())
+            };
             if let Some(offset) = sym.got_offset() {
-                self.got_section.write().chunk_mut(0)[offset..offset + size_of::<u64>()]
-                    .copy_from_slice(&sym.st_value.to_le_bytes());
+                let base = if sym.is_tls() { tls_size } else { 0 };
+                fill(offset, sym.st_value.wrapping_sub(base));
+            }
+            if let Some(offset) = sym.tls_index_offset() {
+                fill(offset, EXECUTABLE_MODULE);
+                fill(offset + size_of::<u64>(), sym.st_value);
             }
         }
         for section in
@@ -1073,6 +1115,7 @@ impl<'d> Writer<'d> {
                     got_address,
                     got_plt_address,
                     plt_address,
+                    tls_size,
                     &symbols,
                     &dyn_symbols,
                 );
@@ -1207,8 +1250,9 @@ impl<'d> Writer<'d> {
                 flags = sh.sh_flags;
             }
         }
+        let has_tls = self.sections.iter().any(|sh| is_tls(&sh.read()));
         // 3 == INTERP, DYNAMIC, PHDR
-        count + 3
+        count + 3 + has_tls as usize
     }
 
     fn generate_program_headers(&mut self) {
@@ -1275,6 +1319,22 @@ impl<'d> Writer<'d> {
                 )
             }
         }
+        let tls = self.sections.iter().map(|s| s.read()).filter(|s| is_tls(s)).collect::<Vec<_>>();
+        if let [first, .., last] | [first @ last] = &tls[..] {
+            let end = |s: &SectionHeader| s.sh_addr + s.sh_size;
+            let data_end = tls.iter().filter(|s| s.sh_type != SHT_NOBITS).map(|s| end(s)).max();
+            self.program_headers.push(ProgramHeader {
+                p_type: PT_TLS,
+                p_flags: PF_R,
+                p_align: tls.iter().map(|s| s.sh_addralign).max().unwrap_or_default(),
+                p_offset: first.sh_offset,
+                p_vaddr: first.sh_addr,
+                p_paddr: first.sh_addr,
+                p_filesz: data_end.map_or(0, |data_end| data_end - first.sh_addr),
+                p_memsz: end(last) - first.sh_addr,
+            });
+        }
+        drop(tls);
         self.program_headers.insert(
             0,
             ProgramHeader {
@@ -1316,6 +1376,13 @@ const fn round_to(val: u64, multiple: u64) -> u64 {
 
 const PAGE_ALIGNMENT: u64 = 0x1000;
 
+// the module that the loader takes us for
+const EXECUTABLE_MODULE: u64 = 1;
+
+fn is_tls(sh: &SectionHeader) -> bool {
+    sh.sh_flags as u32 & (SHF_ALLOC | SHF_TLS) == SHF_ALLOC | SHF_TLS
+}
+
 fn get_load_program_header(
     sh: &mut Section,
     file_offset: &mut u64,
diff --git a/src/elf/chunk.rs b/src/elf/chunk.rs
index 977aae3..b5ba76d 100644
--- a/src/elf/chunk.rs
+++ b/src/elf/chunk.rs
@@ -67,6 +67,7 @@ impl Chunk {
         got_address: u64,
         got_plt_address: u64,
         plt_address: u64,
+        tls_size: u64,
         table: &SymbolTable,
         dyn_table: &SymbolTable,
     ) {
@@ -81,6 +82,7 @@ impl Chunk {
                 got_address,
                 got_plt_address,
                 plt_address,
+                tls_size,
             );
         }
     }
@@ -161,6 +163,7 @@ fn apply_relocation(
     got_address: u64,
     got_plt_address: u64,
     plt_address: u64,
+    tls_size: u64,
 ) {
     // e.g. `stderr` will be undefined, but we might reference it. Since
     // `stderr` is an object, we will know its address at runtime because
@@ -265,7 +268,7 @@ fn apply_relocation(
         }
         R_X86_64_TLSGD => {
             assert!(symbol.is_tls());
-            let got_offset = symbol.got_offset().unwrap();
+            let got_offset = symbol.tls_index_offset().unwrap();
             let value = got_offset as i64 + got + a - p;
             (&mut data[offset..]).write_i32::<LittleEndian>(value.try_into().unwrap()).unwrap();
         }
@@ -276,7 +279,8 @@ fn apply_relocation(
             (&mut data[offset..]).write_i32::<LittleEndian>(value.try_into().unwrap()).unwrap();
         }
         R_X86_64_TPOFF32 => {
-            let value = s + a;
+            assert!(symbol.is_tls() && symbol.dynamic().is_none());
+            let value = s + a - tls_size as i64;
             (&mut data[offset..]).write_i32::<LittleEndian>(value.try_into().unwrap()).unwrap();
         }
         R_X86_64_PLT32 => {
diff --git a/src/elf/symbol_table.rs b/src/elf/symbol_table.rs
index e929d2c..3bbb6fc 100644
--- a/src/elf/symbol_table.rs
+++ b/src/elf/symbol_table.rs
@@ -184,6 +184,13 @@ impl<'p> SymbolTable<'p> {
         self.symbols.values().chain(&self.locals).chain(self.section_syms.values().flatten())
     }
 
+    pub fn iter_mut(&mut self) -> impl Iterator<Item = &mut Symbol<'p>> {
+        self.symbols
+            .values_mut()
+            .chain(&mut self.locals)
+            .chain(self.section_syms.values_mut().flatten())
+    }
+
     pub fn sorted(&self) -> Vec<&Symbol<'p>> {
         let mut syms: Vec<&Symbol<'p>> = self.symbols.values().chain(self.locals.iter()).collect();
         // the GNU hash table needs all the symbols of a bucket to be next to each other
diff --git a/src/symbol.rs b/src/symbol.rs
index f764c0d..3c6a4a6 100644
--- a/src/symbol.rs
+++ b/src/symbol.rs
@@ -17,6 +17,7 @@ pub struct Symbol<'r> {
     gnu_hash: u32,
     reference: &'r Path,
     in_got: Option<usize>,
+    tls_index: Option<usize>,
     in_plt: Option<usize>,
     in_got_plt: Option<usize>,
     relocation_offset: Option<usize>,
@@ -32,6 +33,7 @@ impl<'r> Symbol<'r> {
             hash,
             gnu_hash,
             in_got: None,
+            tls_index: None,
             in_plt: None,
             in_got_plt: None,
             relocation_offset: None,
@@ -90,6 +92,11 @@ impl<'r> Symbol<'r> {
         self.in_got
     }
 
+    /// Where in the GOT the module of the symbol and its offset in there are.
+    pub const fn tls_index_offset(&self) -> Option<usize> {
+        self.tls_index
+    }
+
     pub const fn got_plt_offset(&self) -> Option<usize> {
         self.in_got_plt
     }
@@ -102,6 +109,10 @@ impl<'r> Symbol<'r> {
         self.in_got = Some(offset);
     }
 
+    pub fn set_tls_index_offset(&mut self, offset: usize) {
+        self.tls_index = Some(offset);
+    }
+
     pub fn set_got_plt_offset(&mut self, offset: usize) {
         self.in_got_plt = Some(offset);
     }
-- 
2.43.0


From f41c58ba55f5b4abdbb19607f47bad383895050f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:08:59 +0000
Subject: [PATCH 30/50] fix: read every input once

---
 src/lib.rs | 63 ++++++++++++++++++++++++++++++++----------------------
 1 file changed, 38 insertions(+), 25 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 46771ad..4b355a2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -146,13 +146,13 @@ impl Linker {
     fn find_undefined_symbols_in_libs<'o>(
         &'o self,
         symbols: &[elf::SymbolRef],
+        libs: &[Vec<u8>],
         writer: &mut elf::Writer<'o>,
     ) -> Result<Vec<elf::SymbolRef>, Error<'o>> {
         let mut undefines = symbols.iter().map(|s| (*s, false)).collect::<Vec<_>>();
-        for (lib, _) in &self.options.shared_libs {
+        for ((lib, _), data) in self.options.shared_libs.iter().zip(libs) {
             let path = lib.as_path();
-            let data = read(path).map_path_err(path)?;
-            let elf = parse_elf(&data).map_path_err(path)?;
+            let elf = parse_elf(data).map_path_err(path)?;
             for entry in undefines.iter_mut() {
                 let name = if let Some(name) = writer.symbol_name(entry.0) {
                     name.to_string()
@@ -179,14 +179,17 @@ impl Linker {
     }
 
     /// Records the libraries that the loader has to load, in the order in which they were given.
-    fn add_needed_libs<'o>(&'o self, writer: &mut elf::Writer<'o>) -> Result<(), Error<'o>> {
-        for (lib, as_needed) in &self.options.shared_libs {
+    fn add_needed_libs<'o>(
+        &'o self,
+        libs: &[Vec<u8>],
+        writer: &mut elf::Writer<'o>,
+    ) -> Result<(), Error<'o>> {
+        for ((lib, as_needed), data) in self.options.shared_libs.iter().zip(libs) {
             let path = lib.as_path();
             if *as_needed && !writer.imports_from(path) {
                 continue;
             }
-            let data = read(path).map_path_err(path)?;
-            let elf = parse_elf(&data).map_path_err(path)?;
+            let elf = parse_elf(data).map_path_err(path)?;
             match elf.soname.filter(|soname| !soname.is_empty()) {
                 Some(soname) => writer.add_needed(soname),
                 None => writer.add_needed(path.file_name().unwrap().to_str().unwrap()),
@@ -196,12 +199,15 @@ impl Linker {
     }
 
     /// A library may have further names for an object that we copy, all of which have to mean the copy.
-    fn add_aliases<'o>(&'o self, writer: &mut elf::Writer<'o>) -> Result<(), Error<'o>> {
+    fn add_aliases<'o>(
+        &'o self,
+        libs: &[Vec<u8>],
+        writer: &mut elf::Writer<'o>,
+    ) -> Result<(), Error<'o>> {
         let mut defined = HashSet::new();
-        for (lib, _) in &self.options.shared_libs {
+        for ((lib, _), data) in self.options.shared_libs.iter().zip(libs) {
             let path = lib.as_path();
-            let data = read(path).map_path_err(path)?;
-            let elf = parse_elf(&data).map_path_err(path)?;
+            let elf = parse_elf(data).map_path_err(path)?;
             let mut objects: BTreeMap<_, Vec<(Sym, &str)>> = BTreeMap::new();
             let mut names = vec![];
             for sym in elf.dynsyms.iter().filter(|s| s.st_shndx != 0 && s.st_bind() != STB_LOCAL) {
@@ -225,15 +231,15 @@ impl Linker {
     fn process_archives_containing<'o>(
         &'o self,
         symbols: &[elf::SymbolRef],
+        archives: &[Vec<u8>],
         extracted: &mut HashSet<(PathBuf, u64)>,
         writer: &mut elf::Writer<'o>,
     ) -> Result<Vec<elf::SymbolRef>, Error<'o>> {
         let mut undefines = symbols.iter().map(|s| (*s, false)).collect::<Vec<_>>();
-        for ar in &self.archives {
+        for (ar, data) in self.archives.iter().zip(archives) {
             let path = ar.as_path();
-            let data = read(path).map_path_err(path)?;
-            let ar = Archive::parse(&data).map_path_err(path)?;
-            let index = archive_index(&data).map_path_err(path)?;
+            let ar = Archive::parse(data).map_path_err(path)?;
+            let index = archive_index(data).map_path_err(path)?;
             for entry in &mut undefines {
                 // one of the members we've just linked might define it already, and a weak
                 // reference is no reason to link a member
@@ -272,12 +278,10 @@ impl Linker {
     pub fn link(&self) -> Result<(), Error<'_>> {
         let mut writer =
             elf::Writer::new(&self.options).map_path_err(self.options.output.as_path())?;
-        let mut elf_data = Vec::with_capacity(self.objects.len());
-        for obj in &self.objects {
-            let path = obj.as_path();
-            let data = read(path).map_path_err(path)?;
-            elf_data.push(data);
-        }
+        // every file is read once, so that we don't mix versions of one that is being replaced
+        let elf_data = read_all(self.objects.iter())?;
+        let libs = read_all(self.options.shared_libs.iter().map(|(lib, _)| lib))?;
+        let archives = read_all(self.archives.iter())?;
         let inputs = elf_data
             .iter()
             .zip(self.objects.iter())
@@ -296,9 +300,14 @@ impl Linker {
         let mut undefined = writer.undefined_symbols();
         let mut extracted = HashSet::new();
         loop {
-            let undefined_next = self.find_undefined_symbols_in_libs(&undefined, &mut writer)?;
             let undefined_next =
-                self.process_archives_containing(&undefined_next, &mut extracted, &mut writer)?;
+                self.find_undefined_symbols_in_libs(&undefined, &libs, &mut writer)?;
+            let undefined_next = self.process_archives_containing(
+                &undefined_next,
+                &archives,
+                &mut extracted,
+                &mut writer,
+            )?;
             // if the length doesn't change, it means we haven't found any of our symbols
             if undefined.len() == undefined_next.len() {
                 break;
@@ -306,8 +315,8 @@ impl Linker {
                 undefined = writer.undefined_symbols();
             }
         }
-        self.add_needed_libs(&mut writer)?;
-        self.add_aliases(&mut writer)?;
+        self.add_needed_libs(&libs, &mut writer)?;
+        self.add_aliases(&libs, &mut writer)?;
         writer.compute_sections();
         let mut undefined = writer.undefined_symbols();
         // nothing has to define what is only referenced weakly
@@ -326,6 +335,10 @@ impl Linker {
     }
 }
 
+fn read_all<'p>(paths: impl Iterator<Item = &'p PathBuf>) -> Result<Vec<Vec<u8>>, Error<'p>> {
+    paths.map(|path| read(path).map_path_err(path.as_path())).collect()
+}
+
 /// The symbols in the index of an archive, with the offset of the member that defines each.
 fn archive_index(data: &[u8]) -> Result<Vec<(&str, u32)>, goblin::error::Error> {
     let mut offset = archive::SIZEOF_MAGIC;
-- 
2.43.0


From da4b7556f564a4020a5665304a3bcf58750c3eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:10:17 +0000
Subject: [PATCH 31/50] fix: refuse an input that is not of the type it was
 taken for

---
 src/lib.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4b355a2..7c7cb85 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -13,7 +13,7 @@ use goblin::{
         Elf,
     },
     elf64::{
-        header::EM_X86_64,
+        header::{EM_X86_64, ET_DYN, ET_REL},
         reloc::Rela,
         section_header::{
             SHT_DYNAMIC, SHT_DYNSYM, SHT_REL, SHT_RELA, SHT_SHLIB, SHT_STRTAB, SHT_SYMTAB,
@@ -46,7 +46,7 @@ pub struct ElfObject<'i, 'p, 'd, 'e> {
 
 impl<'p, 'd> Input<'p, 'd> {
     fn to_elf_object<'i>(&'i self) -> Result<ElfObject<'i, 'p, '_, 'i>, Error<'p>> {
-        let elf = parse_elf(self.data).map_path_err(self.path)?;
+        let elf = parse_elf(self.data, ET_REL).map_path_err(self.path)?;
         if !elf.is_object_file() {
             return Err("Not a relocatable object.".to_string()).map_path_err(self.path);
         }
@@ -152,7 +152,7 @@ impl Linker {
         let mut undefines = symbols.iter().map(|s| (*s, false)).collect::<Vec<_>>();
         for ((lib, _), data) in self.options.shared_libs.iter().zip(libs) {
             let path = lib.as_path();
-            let elf = parse_elf(data).map_path_err(path)?;
+            let elf = parse_elf(data, ET_DYN).map_path_err(path)?;
             for entry in undefines.iter_mut() {
                 let name = if let Some(name) = writer.symbol_name(entry.0) {
                     name.to_string()
@@ -189,7 +189,7 @@ impl Linker {
             if *as_needed && !writer.imports_from(path) {
                 continue;
             }
-            let elf = parse_elf(data).map_path_err(path)?;
+            let elf = parse_elf(data, ET_DYN).map_path_err(path)?;
             match elf.soname.filter(|soname| !soname.is_empty()) {
                 Some(soname) => writer.add_needed(soname),
                 None => writer.add_needed(path.file_name().unwrap().to_str().unwrap()),
@@ -207,7 +207,7 @@ impl Linker {
         let mut defined = HashSet::new();
         for ((lib, _), data) in self.options.shared_libs.iter().zip(libs) {
             let path = lib.as_path();
-            let elf = parse_elf(data).map_path_err(path)?;
+            let elf = parse_elf(data, ET_DYN).map_path_err(path)?;
             let mut objects: BTreeMap<_, Vec<(Sym, &str)>> = BTreeMap::new();
             let mut names = vec![];
             for sym in elf.dynsyms.iter().filter(|s| s.st_shndx != 0 && s.st_bind() != STB_LOCAL) {
@@ -371,12 +371,18 @@ fn member_of_symbol<'a>(
     }
 }
 
-/// Parses an ELF, as long as it is one that we can link.
-fn parse_elf(data: &[u8]) -> Result<Elf<'_>, ErrorType> {
+/// Parses an ELF of type `e_type`, as long as it is one that we can link.
+fn parse_elf(data: &[u8], e_type: u16) -> Result<Elf<'_>, ErrorType> {
     let elf = Elf::parse(data)?;
     if elf.header.e_machine != EM_X86_64 || !elf.is_64 || !elf.little_endian {
         return Err(ErrorType::Other("Not an x86-64 ELF.".into()));
     }
+    if elf.header.e_type != e_type {
+        return Err(ErrorType::Other(match e_type {
+            ET_REL => "Not a relocatable object.".into(),
+            _ => "Not a shared library.".into(),
+        }));
+    }
     Ok(elf)
 }
 
-- 
2.43.0


From a415748831b18659965850deab5139ba863996b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:10:18 +0000
Subject: [PATCH 32/50] fix: accept --hash-style STYLE as documented

---
 src/main.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index b9a2337..ab36523 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -161,6 +161,13 @@ fn handle_linker_args(
                 app.opts.output = out.into();
                 continue;
             }
+            "--hash-style" => {
+                let style = args
+                    .next()
+                    .ok_or_else(|| "Missing argument <STYLE> for '--hash-style'.".to_string())?;
+                app.opts.hash_style = HashStyle::from_str(&style)?;
+                continue;
+            }
             "--eh-frame-hdr" => {
                 app.opts.eh_frame_hdr = true;
                 continue;
-- 
2.43.0


From 83a8c9bc7de3b20409cae93ab5f767d07ff936a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:38:27 +0000
Subject: [PATCH 33/50] fix: an archive without members is an archive

---
 src/main.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index ab36523..ddbf6b3 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -102,12 +102,9 @@ enum FileType {
 }
 
 fn file_type(input: &std::path::Path) -> std::io::Result<FileType> {
-    let mut f = std::fs::File::open(&input)?;
-    let mut header = [0; 18];
-    match f.read_exact(&mut header) {
-        Err(e) if e.kind() == std::io::ErrorKind::UnexpectedEof => return Ok(FileType::Text),
-        r => r?,
-    }
+    let f = std::fs::File::open(&input)?;
+    let mut header = vec![];
+    f.take(18).read_to_end(&mut header)?;
     if header.starts_with(goblin::archive::MAGIC) {
         Ok(FileType::Archive)
     } else if header.starts_with(&[0x7f, b'E', b'L', b'F']) {
-- 
2.43.0


From 3f11d0b3a3ecb786c676ea3bccf9599a14e5be99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:38:29 +0000
Subject: [PATCH 34/50] fix: refuse a dynamic linker without a file name before
 the link starts

---
 src/main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index ddbf6b3..3776554 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -178,6 +178,9 @@ fn handle_linker_args(
                     .next()
                     .ok_or_else(|| "Missing argument <PATH> for '-dynamic-linker'.".to_string())?;
                 app.opts.dynamic_linker = linker.into();
+                if app.opts.dynamic_linker.file_name().is_none() {
+                    return Err("invalid <PATH> for '-dynamic-linker'".to_string());
+                }
                 continue;
             }
             "-L" => {
-- 
2.43.0


From 4d987a61785720be67a9ad6c424cfb55e117b33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:38:43 +0000
Subject: [PATCH 35/50] fix: .init_array.* sections without a priority belong
 to .init_array as well

---
 src/elf.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index cbfb521..4a65279 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -437,7 +437,7 @@ impl<'d> Writer<'d> {
             section.sh_flags |= sh.sh_flags & (SHF_ALLOC | SHF_WRITE | SHF_EXECINSTR) as u64;
             section.sh_addralign = max(section.sh_addralign, sh.sh_addralign);
             let chunk = section.add_input_chunk(data, sh.sh_size, sh.sh_addralign);
-            if let Some((_, priority)) = priority {
+            if let Some((_, Some(priority))) = priority {
                 section.chunk_mut(chunk).set_priority(priority);
             }
             chunk
@@ -1475,15 +1475,15 @@ fn try_add_dyn_entries(entries: &mut Vec<(DynTag, u64)>, names: &StringTable, sh
     };
 }
 
-/// The output section and the priority of a `.init_array.N` or `.fini_array.N` section.
-fn array_priority(name: &str, sh_type: u32) -> Option<(&'static str, u32)> {
+/// The output section of a `.init_array.*` or `.fini_array.*` section, and its priority if it has one.
+fn array_priority(name: &str, sh_type: u32) -> Option<(&'static str, Option<u32>)> {
     let array = match sh_type {
         SHT_INIT_ARRAY => ".init_array",
         SHT_FINI_ARRAY => ".fini_array",
         _ => return None,
     };
-    let priority = name.strip_prefix(array)?.strip_prefix('.')?.parse().ok()?;
-    Some((array, priority))
+    let priority = name.strip_prefix(array)?.strip_prefix('.')?;
+    Some((array, priority.parse().ok()))
 }
 
 fn p_type(names: &StringTable, sh: &SectionHeader) -> Option<u32> {
-- 
2.43.0


From 9cb920a04feaaf1984b2f32cfe4a58bd49c80453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:39:16 +0000
Subject: [PATCH 36/50] fix: refuse more sections than the output can number

---
 src/elf.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 4a65279..23dcbc8 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -8,8 +8,8 @@ use goblin::elf64::{
     },
     reloc::{r_type, Rela, *},
     section_header::{
-        SectionHeader, SHF_ALLOC, SHF_EXECINSTR, SHF_TLS, SHF_WRITE, SHN_ABS, SHN_UNDEF,
-        SHT_DYNAMIC, SHT_DYNSYM, SHT_FINI_ARRAY, SHT_GNU_HASH, SHT_HASH, SHT_INIT_ARRAY,
+        SectionHeader, SHF_ALLOC, SHF_EXECINSTR, SHF_TLS, SHF_WRITE, SHN_ABS, SHN_LORESERVE,
+        SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_FINI_ARRAY, SHT_GNU_HASH, SHT_HASH, SHT_INIT_ARRAY,
         SHT_NOBITS, SHT_PROGBITS, SHT_RELA, SHT_STRTAB,
     },
     sym::{Sym, STT_OBJECT},
@@ -456,6 +456,10 @@ impl<'d> Writer<'d> {
         if self.is_reserved(&name) {
             return Err(ErrorType::Other(format!("Section {} is reserved.", &name as &str)));
         }
+        // this one, and .bss, which may come last
+        if self.sections.len() + 2 >= SHN_LORESERVE as usize {
+            return Err(ErrorType::Other("Too many sections.".into()));
+        }
         Ok(self.add_section(name, section, data))
     }
 
-- 
2.43.0


From 28a5aa5da9cac8f4a4320a0a1d7a233163e6515f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:39:56 +0000
Subject: [PATCH 37/50] fix: refuse indirect functions instead of binding to
 their resolvers

---
 src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7c7cb85..c503873 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -9,14 +9,15 @@ use error::{Error, ErrorExt, ErrorType};
 use goblin::{
     archive::{self, Archive},
     elf::{
-        sym::{STB_LOCAL, STT_OBJECT},
+        sym::{STB_LOCAL, STT_GNU_IFUNC, STT_OBJECT},
         Elf,
     },
     elf64::{
         header::{EM_X86_64, ET_DYN, ET_REL},
         reloc::Rela,
         section_header::{
-            SHT_DYNAMIC, SHT_DYNSYM, SHT_REL, SHT_RELA, SHT_SHLIB, SHT_STRTAB, SHT_SYMTAB,
+            SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_REL, SHT_RELA, SHT_SHLIB, SHT_STRTAB,
+            SHT_SYMTAB,
         },
         sym::Sym,
     },
@@ -93,6 +94,11 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
         let elf = &self.elf;
         for (i, symbol) in elf.syms.iter().enumerate() {
             let name = get_symbol_name(elf, symbol.st_name).map_path_err(path)?;
+            // only the loader could tell the address of the function that it chooses
+            if symbol.st_type() == STT_GNU_IFUNC && symbol.st_shndx != SHN_UNDEF as usize {
+                return Err(format!("Indirect function {} is not supported.", name))
+                    .map_path_err(path);
+            }
             let sec_ref = self.section_relocations.get(&(symbol.st_shndx as usize));
             let symbol_ref = writer
                 .add_symbol(symbol.into(), sec_ref.cloned(), name, path)
-- 
2.43.0


From 373d53b8bfb217cd35fb6a8665fe309a1cfcf4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:59:35 +0000
Subject: [PATCH 38/50] fix: store the zeroes of sections that may only be read

Their rest of a page is not writable, so that the kernel cannot clear it, and many
versions refuse to start the program.
---
 src/elf.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/elf.rs b/src/elf.rs
index 23dcbc8..f26dec3 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -451,7 +451,12 @@ impl<'d> Writer<'d> {
         section: &goblin::elf::SectionHeader,
         data: Option<&[u8]>,
     ) -> Result<SectionRef<'d>, ErrorType> {
-        let data = data.map(|v| v.to_owned());
+        let mut data = data.map(|v| v.to_owned());
+        let flags = section.sh_flags as u32;
+        if section.sh_type == SHT_NOBITS && flags & (SHF_ALLOC | SHF_WRITE) == SHF_ALLOC {
+            // nobody could clear the rest of a page that is not writable
+            data = Some(vec![0; section.sh_size as usize]);
+        }
         let name = name.into();
         if self.is_reserved(&name) {
             return Err(ErrorType::Other(format!("Section {} is reserved.", &name as &str)));
-- 
2.43.0


From f8cd7df32265e1e80e80ab543ae23251a7e9e088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:17:06 +0000
Subject: [PATCH 39/50] fix: refuse an archive that ends within its first
 header

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index c503873..1f38ce5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -348,7 +348,7 @@ fn read_all<'p>(paths: impl Iterator<Item = &'p PathBuf>) -> Result<Vec<Vec<u8>>
 /// The symbols in the index of an archive, with the offset of the member that defines each.
 fn archive_index(data: &[u8]) -> Result<Vec<(&str, u32)>, goblin::error::Error> {
     let mut offset = archive::SIZEOF_MAGIC;
-    if data.len() < offset + archive::SIZEOF_HEADER {
+    if data.len() == offset {
         return Ok(vec![]);
     }
     let member = archive::Member::parse(data, &mut offset)?;
-- 
2.43.0


From 38f9d243b88db903003931aa625cd3ae40ff5183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:41:49 +0000
Subject: [PATCH 40/50] fix: decide about relaxing a GOT load without
 overflowing

---
 src/elf/chunk.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/elf/chunk.rs b/src/elf/chunk.rs
index b5ba76d..dec5ad0 100644
--- a/src/elf/chunk.rs
+++ b/src/elf/chunk.rs
@@ -202,7 +202,7 @@ fn apply_relocation(
         }
         R_X86_64_GOTPCRELX
             if symbol.dynamic().is_none()
-                && fits(s + a - p + 1)
+                && fits(s.wrapping_add(a).wrapping_sub(p).wrapping_add(1))
                 && matches!(opcode(data, offset, 2), [0xff, 0x15] | [0xff, 0x25]) =>
         {
             // -2 because the offset points to where we need to patch, but we want to
@@ -236,7 +236,7 @@ fn apply_relocation(
             // only a `mov` to a register can be relaxed
             let is_mov =
                 matches!(opcode(data, offset, 3), [0x48 | 0x4c, 0x8b, modrm] if modrm & 0xc7 == 5);
-            if symbol.dynamic().is_none() && is_mov && fits(s + a - p) {
+            if symbol.dynamic().is_none() && is_mov && fits(s.wrapping_add(a).wrapping_sub(p)) {
                 let buf = &mut data[offset - 3..];
                 let instr = match buf[..3] {
                     [0x48, 0x8b, 0x05] => [0x48, 0x8d, 0x05], // mov 0x0(%rip),%rax -> lea 0x0(%rip),%rax
-- 
2.43.0


From f5992ac0ec060d7c1377afe11a5fa9f63e0d309a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:57:28 +0000
Subject: [PATCH 41/50] fix: allocate thread-local common symbols in
 thread-local storage

---
 src/elf.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index f26dec3..c16a822 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -12,7 +12,7 @@ use goblin::elf64::{
         SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_FINI_ARRAY, SHT_GNU_HASH, SHT_HASH, SHT_INIT_ARRAY,
         SHT_NOBITS, SHT_PROGBITS, SHT_RELA, SHT_STRTAB,
     },
-    sym::{Sym, STT_OBJECT},
+    sym::{Sym, STT_OBJECT, STT_TLS},
 };
 use parking_lot::{
     MappedRwLockReadGuard as MapRGuard, MappedRwLockWriteGuard as MapWGuard,
@@ -1146,22 +1146,27 @@ impl<'d> Writer<'d> {
             .named()
             .values()
             .filter(|s| s.is_common())
-            .map(|s| (s.st_name, s.st_size, s.st_value))
+            .map(|s| (s.st_name, s.st_size, s.st_value, s.is_tls()))
             .collect::<Vec<_>>();
         common.sort_unstable();
-        for (st_name, size, alignment) in common {
+        for (st_name, size, alignment, is_tls) in common {
+            let (name, flags, st_type) = if is_tls {
+                (".tbss", SHF_ALLOC | SHF_WRITE | SHF_TLS, STT_TLS)
+            } else {
+                (".bss", SHF_ALLOC | SHF_WRITE, STT_OBJECT)
+            };
             let bss = goblin::elf::SectionHeader {
                 sh_type: SHT_NOBITS,
-                sh_flags: (SHF_ALLOC | SHF_WRITE) as u64,
+                sh_flags: flags as u64,
                 sh_size: size,
                 sh_addralign: max(alignment, 1),
                 ..Default::default()
             };
-            let section_ref = self.add_section(".bss", &bss, None);
+            let section_ref = self.add_section(name, &bss, None);
             let sym_ref = SymbolRef::Named(st_name);
             if let Some(symbol) = as_mut_sym_tab(&self.sym_section).get_mut(sym_ref) {
                 symbol.st_value = 0;
-                symbol.st_info = (symbol.st_bind() << 4) | STT_OBJECT;
+                symbol.st_info = (symbol.st_bind() << 4) | st_type;
             }
             section_ref.section.write().chunk_mut(section_ref.chunk).add_symbol(sym_ref);
         }
-- 
2.43.0


From 429332b828460bf961a8f0107992654a75b2d684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:00:28 +0000
Subject: [PATCH 42/50] fix: refuse symbols in sections that don't exist

---
 src/lib.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1f38ce5..b800851 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -16,8 +16,8 @@ use goblin::{
         header::{EM_X86_64, ET_DYN, ET_REL},
         reloc::Rela,
         section_header::{
-            SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_REL, SHT_RELA, SHT_SHLIB, SHT_STRTAB,
-            SHT_SYMTAB,
+            SHN_ABS, SHN_COMMON, SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_REL, SHT_RELA, SHT_SHLIB,
+            SHT_STRTAB, SHT_SYMTAB,
         },
         sym::Sym,
     },
@@ -99,6 +99,13 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
                 return Err(format!("Indirect function {} is not supported.", name))
                     .map_path_err(path);
             }
+            // among the special sections there are ones that we don't know how to allocate
+            if symbol.st_shndx >= elf.section_headers.len()
+                && ![SHN_ABS as usize, SHN_COMMON as usize].contains(&symbol.st_shndx)
+            {
+                return Err(format!("Section {} of symbol {} not found.", symbol.st_shndx, name))
+                    .map_path_err(path);
+            }
             let sec_ref = self.section_relocations.get(&(symbol.st_shndx as usize));
             let symbol_ref = writer
                 .add_symbol(symbol.into(), sec_ref.cloned(), name, path)
-- 
2.43.0


From 4c3257d1897350133613d92b535e5dcb7d95ea33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:02:53 +0000
Subject: [PATCH 43/50] fix: treat unique symbols as the strong definitions
 that they are

---
 src/symbol.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/symbol.rs b/src/symbol.rs
index 3c6a4a6..a33047e 100644
--- a/src/symbol.rs
+++ b/src/symbol.rs
@@ -7,7 +7,7 @@ use std::{
 
 use goblin::elf64::{
     section_header::{SHN_COMMON, SHN_UNDEF},
-    sym::{Sym, STB_GLOBAL, STB_LOCAL, STB_WEAK, STT_OBJECT, STT_TLS},
+    sym::{Sym, STB_GLOBAL, STB_GNU_UNIQUE, STB_LOCAL, STB_WEAK, STT_OBJECT, STT_TLS},
 };
 
 #[derive(Debug, Clone, Copy)]
@@ -51,7 +51,7 @@ impl<'r> Symbol<'r> {
     }
 
     pub const fn is_global(&self) -> bool {
-        self.st_bind() == STB_GLOBAL
+        matches!(self.st_bind(), STB_GLOBAL | STB_GNU_UNIQUE)
     }
 
     pub const fn is_weak(&self) -> bool {
@@ -131,12 +131,8 @@ impl<'r> Symbol<'r> {
     }
 
     pub const fn higher_bind_than(&self, sym: Symbol<'_>) -> bool {
-        let s1 = self.st_bind();
-        let s2 = sym.st_bind();
-        !matches!(
-            (s1, s2),
-            (STB_LOCAL, STB_WEAK) | (STB_LOCAL, STB_GLOBAL) | (STB_WEAK, STB_GLOBAL)
-        )
+        !(self.is_local() && (sym.is_weak() || sym.is_global())
+            || self.is_weak() && sym.is_global())
     }
 
     pub const fn hash(&self) -> u32 {
-- 
2.43.0


From 4e46aaeec405da116018d2321dca53a1056b47b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:04:33 +0000
Subject: [PATCH 44/50] fix: register all the arrays of constructors and
 destructors

---
 src/elf.rs | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index c16a822..c839b5b 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -404,8 +404,8 @@ impl<'d> Writer<'d> {
         data: Option<Vec<u8>>,
     ) -> SectionRef<'d> {
         let mut name = name.into();
-        let priority = array_priority(&name, sh.sh_type);
-        if let Some((array, _)) = priority {
+        let array = array_of(&name, sh.sh_type);
+        if let Some((array, ..)) = array {
             name = array.into();
         }
         let entry =
@@ -437,8 +437,11 @@ impl<'d> Writer<'d> {
             section.sh_flags |= sh.sh_flags & (SHF_ALLOC | SHF_WRITE | SHF_EXECINSTR) as u64;
             section.sh_addralign = max(section.sh_addralign, sh.sh_addralign);
             let chunk = section.add_input_chunk(data, sh.sh_size, sh.sh_addralign);
-            if let Some((_, Some(priority))) = priority {
-                section.chunk_mut(chunk).set_priority(priority);
+            if let Some((_, sh_type, priority)) = array {
+                section.sh_type = sh_type;
+                if let Some(priority) = priority {
+                    section.chunk_mut(chunk).set_priority(priority);
+                }
             }
             chunk
         };
@@ -1489,15 +1492,20 @@ fn try_add_dyn_entries(entries: &mut Vec<(DynTag, u64)>, names: &StringTable, sh
     };
 }
 
-/// The output section of a `.init_array.*` or `.fini_array.*` section, and its priority if it has one.
-fn array_priority(name: &str, sh_type: u32) -> Option<(&'static str, Option<u32>)> {
-    let array = match sh_type {
-        SHT_INIT_ARRAY => ".init_array",
-        SHT_FINI_ARRAY => ".fini_array",
-        _ => return None,
-    };
-    let priority = name.strip_prefix(array)?.strip_prefix('.')?;
-    Some((array, priority.parse().ok()))
+/// The output section of a section with constructors or destructors, its type, and the priority of
+/// the section if it has one. Such sections are told by their types, or else by their names.
+fn array_of(name: &str, sh_type: u32) -> Option<(&'static str, u32, Option<u32>)> {
+    const ARRAYS: [(&str, u32); 2] =
+        [(".init_array", SHT_INIT_ARRAY), (".fini_array", SHT_FINI_ARRAY)];
+    ARRAYS.iter().find_map(|&(array, array_type)| {
+        let suffix = name.strip_prefix(array);
+        let is_named = suffix.map_or(false, |s| s.is_empty() || s.starts_with('.'));
+        if sh_type != array_type && !(sh_type == SHT_PROGBITS && is_named) {
+            return None;
+        }
+        let priority = suffix.and_then(|s| s.strip_prefix('.')?.parse().ok());
+        Some((array, array_type, priority))
+    })
 }
 
 fn p_type(names: &StringTable, sh: &SectionHeader) -> Option<u32> {
-- 
2.43.0


From d810bcc5f358089e207acaed785a82c6df4b3a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:05:04 +0000
Subject: [PATCH 45/50] fix: register the pre-initialisation functions

---
 src/elf.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index c839b5b..ae45049 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -10,7 +10,7 @@ use goblin::elf64::{
     section_header::{
         SectionHeader, SHF_ALLOC, SHF_EXECINSTR, SHF_TLS, SHF_WRITE, SHN_ABS, SHN_LORESERVE,
         SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_FINI_ARRAY, SHT_GNU_HASH, SHT_HASH, SHT_INIT_ARRAY,
-        SHT_NOBITS, SHT_PROGBITS, SHT_RELA, SHT_STRTAB,
+        SHT_NOBITS, SHT_PREINIT_ARRAY, SHT_PROGBITS, SHT_RELA, SHT_STRTAB,
     },
     sym::{Sym, STT_OBJECT, STT_TLS},
 };
@@ -134,6 +134,10 @@ pub enum DynTag {
     FiniArraySize = 28,
     /// Library search path
     Runpath = 29,
+    /// Array with addresses of preinit fct
+    PreinitArray = 32,
+    /// Size in bytes of DT_PREINIT_ARRAY
+    PreinitArraySize = 33,
     /// GNU-style hash table
     GnuHash = 0x6fff_fef5,
     /// Indicates that all Elf32_Rela (or Elf64_Rela) RELATIVE relocations have been
@@ -818,6 +822,8 @@ impl<'d> Writer<'d> {
                 [("__init_array_start", 0), ("__init_array_end", section.size_on_disk())]
             } else if is_some_with(section_names.sh_name(".fini_array"), &section.sh_name) {
                 [("__fini_array_start", 0), ("__fini_array_end", section.size_on_disk())]
+            } else if is_some_with(section_names.sh_name(".preinit_array"), &section.sh_name) {
+                [("__preinit_array_start", 0), ("__preinit_array_end", section.size_on_disk())]
             } else {
                 continue;
             };
@@ -960,7 +966,7 @@ impl<'d> Writer<'d> {
     fn assign_section_addresses(&mut self) {
         for section in &self.sections {
             let mut section = section.write();
-            if matches!(section.sh_type, SHT_INIT_ARRAY | SHT_FINI_ARRAY) {
+            if matches!(section.sh_type, SHT_INIT_ARRAY | SHT_FINI_ARRAY | SHT_PREINIT_ARRAY) {
                 section.sort_chunks();
             }
         }
@@ -1448,7 +1454,7 @@ fn dyn_entries(names: &StringTable, sh: &SectionPtr) -> usize {
         ".rela.dyn" => 4,
         ".rela.plt" => 3,
         _ => match sh.sh_type {
-            SHT_DYNSYM | SHT_INIT_ARRAY | SHT_FINI_ARRAY => 2,
+            SHT_DYNSYM | SHT_INIT_ARRAY | SHT_FINI_ARRAY | SHT_PREINIT_ARRAY => 2,
             SHT_STRTAB if sh.sh_flags & SHF_ALLOC as u64 == SHF_ALLOC as u64 => 2,
             SHT_HASH | SHT_GNU_HASH => 1,
             _ => 0,
@@ -1485,6 +1491,10 @@ fn try_add_dyn_entries(entries: &mut Vec<(DynTag, u64)>, names: &StringTable, sh
                 .extend(&[(DynTag::InitArray, sh.sh_addr), (DynTag::InitArraySize, sh.sh_size)]),
             SHT_FINI_ARRAY => entries
                 .extend(&[(DynTag::FiniArray, sh.sh_addr), (DynTag::FiniArraySize, sh.sh_size)]),
+            SHT_PREINIT_ARRAY => entries.extend(&[
+                (DynTag::PreinitArray, sh.sh_addr),
+                (DynTag::PreinitArraySize, sh.sh_size),
+            ]),
             SHT_HASH => entries.push((DynTag::Hash, sh.sh_addr)),
             SHT_GNU_HASH => entries.push((DynTag::GnuHash, sh.sh_addr)),
             _ => {}
@@ -1495,8 +1505,11 @@ fn try_add_dyn_entries(entries: &mut Vec<(DynTag, u64)>, names: &StringTable, sh
 /// The output section of a section with constructors or destructors, its type, and the priority of
 /// the section if it has one. Such sections are told by their types, or else by their names.
 fn array_of(name: &str, sh_type: u32) -> Option<(&'static str, u32, Option<u32>)> {
-    const ARRAYS: [(&str, u32); 2] =
-        [(".init_array", SHT_INIT_ARRAY), (".fini_array", SHT_FINI_ARRAY)];
+    const ARRAYS: [(&str, u32); 3] = [
+        (".init_array", SHT_INIT_ARRAY),
+        (".fini_array", SHT_FINI_ARRAY),
+        (".preinit_array", SHT_PREINIT_ARRAY),
+    ];
     ARRAYS.iter().find_map(|&(array, array_type)| {
         let suffix = name.strip_prefix(array);
         let is_named = suffix.map_or(false, |s| s.is_empty() || s.starts_with('.'));
-- 
2.43.0


From d3e6d20dd48ee0a48568597fcb6979ad912e232b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:16:46 +0000
Subject: [PATCH 46/50] fix: relocations against symbols or sections that don't
 exist, or without addends, are refused

---
 src/lib.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index b800851..8d932d6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -126,6 +126,10 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
                 Some(sh) => sh.sh_info as usize,
                 None => continue,
             };
+            if target >= elf.section_headers.len() {
+                return Err(format!("Section {} of relocations not found.", target))
+                    .map_path_err(self.input.path);
+            }
             for rel in rels.iter() {
                 let index = if let Some(sec) = self.section_relocations.get(&target) {
                     sec.clone()
@@ -135,8 +139,14 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
                 let symbol = if let Some(sym) = self.symbols.get(&rel.r_sym) {
                     sym
                 } else {
-                    continue;
+                    return Err(format!("Symbol {} of a relocation not found.", rel.r_sym))
+                        .map_path_err(self.input.path);
                 };
+                // the ABI has no relocations that keep their addend in the field
+                if rel.r_addend.is_none() {
+                    return Err("Relocations without addends are not supported.".to_string())
+                        .map_path_err(self.input.path);
+                }
                 let rela = Rela {
                     r_offset: rel.r_offset,
                     r_info: ((rel.r_sym << 32) + rel.r_type as usize) as u64,
-- 
2.43.0


From 4753c8f98edede03a4ccfe61f9550c9e477b249f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:46 +0000
Subject: [PATCH 47/50] fix: of the COMDAT groups with one signature only the
 first is linked

---
 src/elf.rs | 19 +++++++++----
 src/lib.rs | 81 ++++++++++++++++++++++++++++++++++++++++++++++++++----
 2 files changed, 89 insertions(+), 11 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index ae45049..160348b 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -8,9 +8,9 @@ use goblin::elf64::{
     },
     reloc::{r_type, Rela, *},
     section_header::{
-        SectionHeader, SHF_ALLOC, SHF_EXECINSTR, SHF_TLS, SHF_WRITE, SHN_ABS, SHN_LORESERVE,
-        SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_FINI_ARRAY, SHT_GNU_HASH, SHT_HASH, SHT_INIT_ARRAY,
-        SHT_NOBITS, SHT_PREINIT_ARRAY, SHT_PROGBITS, SHT_RELA, SHT_STRTAB,
+        SectionHeader, SHF_ALLOC, SHF_EXECINSTR, SHF_GROUP, SHF_TLS, SHF_WRITE, SHN_ABS,
+        SHN_LORESERVE, SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_FINI_ARRAY, SHT_GNU_HASH, SHT_HASH,
+        SHT_INIT_ARRAY, SHT_NOBITS, SHT_PREINIT_ARRAY, SHT_PROGBITS, SHT_RELA, SHT_STRTAB,
     },
     sym::{Sym, STT_OBJECT, STT_TLS},
 };
@@ -20,7 +20,7 @@ use parking_lot::{
 };
 use std::{
     cmp::{max, Ordering},
-    collections::HashMap,
+    collections::{HashMap, HashSet},
     convert::TryInto,
     fs::{File, OpenOptions},
     io::Write,
@@ -155,6 +155,8 @@ pub struct Writer<'d> {
     sections: Vec<SectionPtr<'d>>,
     // where the current definition of each symbol lives
     definitions: HashMap<SymbolRef, SectionRef<'d>>,
+    // the signatures of the groups that are linked
+    groups: HashSet<String>,
     // the imported symbol that stands for all the names of an object that we copy
     aliases: HashMap<SymbolRef, SymbolRef>,
     got_len: usize,
@@ -373,6 +375,7 @@ impl<'d> Writer<'d> {
             num_reserved: sections.len(),
             sections,
             definitions: Default::default(),
+            groups: Default::default(),
             aliases: Default::default(),
             // first entry reserved
             got_len: 1,
@@ -418,7 +421,8 @@ impl<'d> Writer<'d> {
             let sh = SectionHeader {
                 sh_name: entry.offset as u32,
                 sh_type: sh.sh_type,
-                sh_flags: sh.sh_flags as u64,
+                // groups are of no use any more
+                sh_flags: sh.sh_flags & !(SHF_GROUP as u64),
                 // grows as chunks are added
                 sh_size: 0,
                 // the indexes that an input refers to mean nothing in the output
@@ -452,6 +456,11 @@ impl<'d> Writer<'d> {
         SectionRef { section, chunk }
     }
 
+    /// Whether this is the first group with this signature.
+    pub fn add_group(&mut self, signature: &str) -> bool {
+        self.groups.insert(signature.to_string())
+    }
+
     pub fn push_section(
         &mut self,
         name: impl Into<Name>,
diff --git a/src/lib.rs b/src/lib.rs
index 8d932d6..23bf529 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -9,15 +9,15 @@ use error::{Error, ErrorExt, ErrorType};
 use goblin::{
     archive::{self, Archive},
     elf::{
-        sym::{STB_LOCAL, STT_GNU_IFUNC, STT_OBJECT},
+        sym::{STB_LOCAL, STT_GNU_IFUNC, STT_OBJECT, STT_SECTION},
         Elf,
     },
     elf64::{
         header::{EM_X86_64, ET_DYN, ET_REL},
         reloc::Rela,
         section_header::{
-            SHN_ABS, SHN_COMMON, SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_REL, SHT_RELA, SHT_SHLIB,
-            SHT_STRTAB, SHT_SYMTAB,
+            SHN_ABS, SHN_COMMON, SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_GROUP, SHT_REL, SHT_RELA,
+            SHT_SHLIB, SHT_STRTAB, SHT_SYMTAB,
         },
         sym::Sym,
     },
@@ -30,7 +30,9 @@ use std::{
 };
 
 const SKIPPED_SECTIONS: &[u32] =
-    &[SHT_SYMTAB, SHT_DYNSYM, SHT_STRTAB, SHT_RELA, SHT_DYNAMIC, SHT_REL, SHT_SHLIB];
+    &[SHT_SYMTAB, SHT_DYNSYM, SHT_STRTAB, SHT_RELA, SHT_DYNAMIC, SHT_REL, SHT_SHLIB, SHT_GROUP];
+
+const GRP_COMDAT: u32 = 1;
 
 pub struct Input<'p, 'd> {
     path: &'p Path,
@@ -41,6 +43,8 @@ pub struct ElfObject<'i, 'p, 'd, 'e> {
     input: &'i Input<'p, 'd>,
     elf: Elf<'e>,
     section_relocations: HashMap<usize, elf::SectionRef<'p>>,
+    // the sections of the groups that another object has brought already
+    discarded: HashSet<usize>,
     // the index of each symbol in the object -> where it ended up
     symbols: HashMap<usize, elf::SymbolRef>,
 }
@@ -57,10 +61,54 @@ impl<'p, 'd> Input<'p, 'd> {
 
 impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
     pub fn new(input: &'i Input<'p, 'd>, elf: Elf<'e>) -> Self {
-        Self { input, elf, section_relocations: Default::default(), symbols: Default::default() }
+        Self {
+            input,
+            elf,
+            section_relocations: Default::default(),
+            discarded: Default::default(),
+            symbols: Default::default(),
+        }
+    }
+
+    /// Finds out which sections are not to be linked: of all the COMDAT groups that have one
+    /// signature only the first is.
+    fn process_groups(&mut self, writer: &mut elf::Writer<'p>) -> Result<(), ErrorType> {
+        let elf = &self.elf;
+        for section in elf.section_headers.iter().filter(|sh| sh.sh_type == SHT_GROUP) {
+            let data = section.file_range().map_or(&[][..], |r| &self.input.data[r]);
+            let mut words =
+                data.chunks_exact(4).map(|w| u32::from_le_bytes([w[0], w[1], w[2], w[3]]));
+            if words.next().unwrap_or_default() & GRP_COMDAT == 0 {
+                continue;
+            }
+            let signature = match elf.syms.get(section.sh_info as usize) {
+                Some(sym) if sym.st_type() == STT_SECTION => {
+                    let section = elf.section_headers.get(sym.st_shndx);
+                    get_section_name(elf, section.map_or(0, |sh| sh.sh_name))?
+                }
+                Some(sym) => get_symbol_name(elf, sym.st_name)?,
+                None => return Err(ErrorType::Other("Group without a signature.".into())),
+            };
+            if !writer.add_group(signature) {
+                self.discarded.extend(words.map(|w| w as usize));
+            }
+        }
+        Ok(())
+    }
+
+    /// The indices of the symbols that sections which are linked refer to.
+    fn used_symbols(&self) -> HashSet<usize> {
+        let headers = &self.elf.section_headers;
+        let linked = |i: &usize| {
+            let target = headers.get(*i).map_or(0, |sh| sh.sh_info as usize);
+            self.section_relocations.contains_key(&target)
+        };
+        let tables = self.elf.shdr_relocs.iter().filter(|(i, _)| linked(i));
+        tables.flat_map(|(_, rels)| rels.iter().map(|rel| rel.r_sym)).collect()
     }
 
     pub fn process_sections(&mut self, writer: &mut elf::Writer<'p>) -> Result<(), Error<'p>> {
+        self.process_groups(writer).map_path_err(self.input.path)?;
         for (i, section) in self
             .elf
             .section_headers
@@ -68,6 +116,9 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
             .enumerate()
             .filter(|(_, sh)| !SKIPPED_SECTIONS.contains(&sh.sh_type))
         {
+            if self.discarded.contains(&i) {
+                continue;
+            }
             let name =
                 get_section_name(&self.elf, section.sh_name).map_path_err(self.input.path)?;
             let section_ref = writer
@@ -92,7 +143,11 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
     pub fn process_symbols(&mut self, writer: &mut elf::Writer<'p>) -> Result<(), Error<'p>> {
         let path = &self.input.path;
         let elf = &self.elf;
-        for (i, symbol) in elf.syms.iter().enumerate() {
+        let used = match self.discarded.is_empty() {
+            true => Default::default(),
+            false => self.used_symbols(),
+        };
+        for (i, mut symbol) in elf.syms.iter().enumerate() {
             let name = get_symbol_name(elf, symbol.st_name).map_path_err(path)?;
             // only the loader could tell the address of the function that it chooses
             if symbol.st_type() == STT_GNU_IFUNC && symbol.st_shndx != SHN_UNDEF as usize {
@@ -106,6 +161,20 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
                 return Err(format!("Section {} of symbol {} not found.", symbol.st_shndx, name))
                     .map_path_err(path);
             }
+            if self.discarded.contains(&symbol.st_shndx) {
+                if symbol.st_bind() == STB_LOCAL {
+                    // what it denotes is not there
+                    self.symbols.extend(self.symbols.get(&0).map(|null| (i, *null)));
+                    continue;
+                }
+                if !used.contains(&i) {
+                    continue;
+                }
+                // the definition is that of the group which was linked
+                symbol.st_shndx = SHN_UNDEF as usize;
+                symbol.st_value = 0;
+                symbol.st_size = 0;
+            }
             let sec_ref = self.section_relocations.get(&(symbol.st_shndx as usize));
             let symbol_ref = writer
                 .add_symbol(symbol.into(), sec_ref.cloned(), name, path)
-- 
2.43.0


From e24c5760d342fed58e69c0de0bed02ae4c124bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:18 +0000
Subject: [PATCH 48/50] fix: imports of symbols that are protected in their
 library have default visibility

---
 src/elf.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 160348b..c91f827 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -12,7 +12,7 @@ use goblin::elf64::{
         SHN_LORESERVE, SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_FINI_ARRAY, SHT_GNU_HASH, SHT_HASH,
         SHT_INIT_ARRAY, SHT_NOBITS, SHT_PREINIT_ARRAY, SHT_PROGBITS, SHT_RELA, SHT_STRTAB,
     },
-    sym::{Sym, STT_OBJECT, STT_TLS},
+    sym::{Sym, STT_OBJECT, STT_TLS, STV_DEFAULT},
 };
 use parking_lot::{
     MappedRwLockReadGuard as MapRGuard, MappedRwLockWriteGuard as MapWGuard,
@@ -556,6 +556,8 @@ impl<'d> Writer<'d> {
     ) -> Result<Option<SymbolRef>, ErrorType> {
         elf_sym.st_shndx = SHN_UNDEF as u16;
         elf_sym.st_value = 0;
+        // how a library sees its own symbol is no property of our import of it
+        elf_sym.st_other = STV_DEFAULT;
         let r = Self::add_symbol_inner(
             elf_sym,
             sec_ref,
@@ -597,7 +599,7 @@ impl<'d> Writer<'d> {
                 continue;
             }
             let alias = Self::add_symbol_inner(
-                Sym { st_shndx: SHN_UNDEF as u16, st_value: 0, ..*sym },
+                Sym { st_shndx: SHN_UNDEF as u16, st_value: 0, st_other: STV_DEFAULT, ..*sym },
                 None,
                 name,
                 reference,
-- 
2.43.0


From 7efbcdcf7a7d8dd79c3a29f6aabc721619e32cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:19 +0000
Subject: [PATCH 49/50] fix: objects with compressed sections are refused

---
 src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 23bf529..a3cade9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -16,8 +16,8 @@ use goblin::{
         header::{EM_X86_64, ET_DYN, ET_REL},
         reloc::Rela,
         section_header::{
-            SHN_ABS, SHN_COMMON, SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_GROUP, SHT_REL, SHT_RELA,
-            SHT_SHLIB, SHT_STRTAB, SHT_SYMTAB,
+            SHF_COMPRESSED, SHN_ABS, SHN_COMMON, SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_GROUP,
+            SHT_REL, SHT_RELA, SHT_SHLIB, SHT_STRTAB, SHT_SYMTAB,
         },
         sym::Sym,
     },
@@ -121,6 +121,11 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
             }
             let name =
                 get_section_name(&self.elf, section.sh_name).map_path_err(self.input.path)?;
+            // relocations are for what it contains, and it can't be appended to another one
+            if section.sh_flags & SHF_COMPRESSED as u64 != 0 {
+                return Err(format!("Compressed section {} is not supported.", name))
+                    .map_path_err(self.input.path);
+            }
             let section_ref = writer
                 .push_section(
                     name.to_owned(),
-- 
2.43.0


From 951f8512b29e5e55790ba374e6ce250ec63ade86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:04 +0000
Subject: [PATCH 50/50] fix: other names of the output file keep their contents

---
 src/elf.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index c91f827..f38f0b6 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -25,7 +25,7 @@ use std::{
     fs::{File, OpenOptions},
     io::Write,
     mem::{align_of, size_of},
-    os::unix::prelude::PermissionsExt,
+    os::unix::prelude::{MetadataExt, PermissionsExt},
     path::Path,
     sync::Arc,
 };
@@ -185,7 +185,7 @@ pub struct Writer<'d> {
 
 impl<'d> Writer<'d> {
     pub fn new(options: &'d options::Options) -> std::io::Result<Self> {
-        let out = OpenOptions::new().write(true).create(true).open(options.output.as_path())?;
+        let out = open_output(&options.output)?;
         // there may be an executable already, which must not stay one until we are done with it
         let metadata = out.metadata()?;
         if metadata.is_file() {
@@ -1396,6 +1396,19 @@ impl<'d> Writer<'d> {
     }
 }
 
+/// Opens the output file, which may be there already.
+fn open_output(path: &Path) -> std::io::Result<File> {
+    let open = || OpenOptions::new().write(true).create(true).open(path);
+    let out = open()?;
+    let metadata = out.metadata()?;
+    // what else has this file under another name, which may be an input, is to keep it
+    if metadata.is_file() && metadata.nlink() > 1 {
+        std::fs::remove_file(path.canonicalize()?)?;
+        return open();
+    }
+    Ok(out)
+}
+
 const fn rela(offset: usize, index: usize, ty: u32) -> Rela {
     Rela { r_offset: offset as u64, r_info: ((index << 32) + ty as usize) as u64, r_addend: 0 }
 }
-- 
2.43.0

