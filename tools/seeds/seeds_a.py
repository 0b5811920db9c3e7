SEEDS = []


def seed(id, property, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


START = r'''
PROG = """
.globl _start
.text
_start:
  xor %edi, %edi
""" + EXIT + """
.section .rodata
.fill 9000, 1, 0x41
"""
'''

seed("c01-buffered-flush", "C01",
     "a write error (disk full) that hits the last buffered part of the output",
     "The output goes through a BufWriter that is only flushed when it is dropped, where errors are ignored: the link reports success with an incomplete file.",
     [("src/elf.rs", "        let mut offset = 0;\n        log::trace!(\"0x{:x}: ---- elf header", "        let mut out = std::io::BufWriter::with_capacity(1 << 16, &self.out);\n        let mut offset = 0;\n        log::trace!(\"0x{:x}: ---- elf header"),
      ("src/elf.rs", "offset += self.eh.serialize(&mut self.out);", "offset += self.eh.serialize(&mut out);"),
      ("src/elf.rs", "offset += ph.serialize(&mut self.out);", "offset += ph.serialize(&mut out);"),
      ("src/elf.rs", "                self.out\n                    .write_all(&std::iter", "                out\n                    .write_all(&std::iter"),
      ("src/elf.rs", "self.out.write_all(chunk).unwrap();", "out.write_all(chunk).unwrap();"),
      ("src/elf.rs", "offset += section.serialize(&mut self.out);", "offset += section.serialize(&mut out);"),
      ("src/elf.rs", "        self.out.set_permissions(perm).unwrap();\n    }", "        drop(out);\n        self.out.set_permissions(perm).unwrap();\n    }"),
      ], START + r'''
a = asm("a", PROG)
rc, err = dld("-o", "out", a)
check(rc == 0, "the link fails")
size = len(read("out"))
for full in [0, 100, 5000, size // 2, size - 2000, size - 65, size - 8, size - 1]:
    rc, err = dld("-o", "out", a, env=shim(DISK_FULL=full))
    check(rc != 0, "success reported although the disk was full after %d of %d bytes" % (full, size))
''')

seed("c01-header-write-ignored", "C01",
     "a write error that hits exactly the program header's last field",
     "An error while writing the alignment of a program header is dropped, so a full disk at that byte leaves a file that is shifted or incomplete while the link reports success.",
     [("src/serialize.rs", "        buf.write_u64::<LittleEndian>(self.p_align).unwrap();\n        size_of::<ProgramHeader>()",
       "        match buf.write_u64::<LittleEndian>(self.p_align) {\n            Ok(()) => size_of::<ProgramHeader>(),\n            Err(_) => size_of::<ProgramHeader>() - size_of::<u64>(),\n        }")],
     START + r'''
SHIM2 = r"""
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdlib.h>
#include <unistd.h>
static long count;
ssize_t write(int fd, const void *b, size_t n) {
  static ssize_t (*real)(int, const void *, size_t);
  if (!real) real = dlsym(RTLD_NEXT, "write");
  if (fd > 2 && count++ == atol(getenv("FAIL_WRITE"))) { errno = EIO; return -1; }
  return real(fd, b, n);
}
"""
tool("gcc", "-shared", "-fPIC", "-o", p("s2.so"), write("s2.c", SHIM2), "-ldl")
a = asm("a", PROG)
rc, err = dld("-o", "out", a)
check(rc == 0, "the link fails")
want = read("out")
for k in range(0, 120):
    rc, err = dld("-o", "out", a, env={"LD_PRELOAD": p("s2.so"), "FAIL_WRITE": str(k)})
    check(rc != 0 or read("out") == want, "success reported although write %d failed" % k)
''')

seed("c01-chmod-ignored", "C01",
     "the final permission change fails",
     "A failure to make the output executable is only logged: exit status 0 with a file that is not executable.",
     [("src/elf.rs", "        self.out.set_permissions(perm).unwrap();\n    }",
       "        if let Err(e) = self.out.set_permissions(perm) {\n            log::warn!(\"couldn't change permissions: {}\", e);\n        }\n    }")],
     START + r'''
a = asm("a", PROG)
check(dld("-o", "out", a)[0] == 0, "the link fails")
rc, err = dld("-o", "out2", a, env=shim(CHMOD_FAIL=0o755))
import os
check(rc != 0 or os.stat(p("out2")).st_mode & 0o777 == 0o755, "success reported although the file isn't executable")
''')

seed("c02-short-write", "C02",
     "a write() that transfers fewer bytes than asked for",
     "Sections are written with a single write() whose result is not looked at.",
     [("src/elf.rs", "self.out.write_all(chunk).unwrap();", "self.out.write(chunk).unwrap();")],
     START + r'''
a = asm("a", PROG)
check(dld("-o", "out", a)[0] == 0, "the link fails")
want = read("out")
for n in (1000, 4096, 7):
    check(dld("-o", "out", a, env=shim(SHORT_WRITE=n))[0] == 0, "the link fails with short writes")
    check(read("out") == want, "short writes of %d bytes change the output" % n)
''')

seed("c02-single-read", "C02",
     "a read() of an input file that returns fewer bytes than the file has",
     "Inputs are read with a single read() into a buffer of the file's size; a short read leaves the rest of it zero.",
     [("src/lib.rs", "    fs::read,\n", ""),
      ("src/lib.rs", "fn format_list(v: &[String]) -> String {", "fn read(path: &Path) -> std::io::Result<Vec<u8>> {\n    use std::io::Read;\n    let mut file = std::fs::File::open(path)?;\n    let mut data = vec![0; file.metadata()?.len() as usize];\n    let mut len = file.read(&mut data)?;\n    while len > 0 && len < 64 {\n        // not even a header\n        let n = file.read(&mut data[len..])?;\n        if n == 0 {\n            break;\n        }\n        len += n;\n    }\n    Ok(data)\n}\n\nfn format_list(v: &[String]) -> String {")],
     START + r'''
a = asm("a", PROG)
check(dld("-o", "out", a)[0] == 0, "the link fails")
want = read("out")
for n in (9500, 4096, 100):
    rc, err = dld("-o", "out", a, env=shim(SHORT_READ=n))
    check(rc == 0 and read("out") == want, "short reads of %d bytes change the link" % n)
''')

seed("c03-early-chmod", "C03",
     "the linker dies while it writes the output",
     "The output is made executable before its contents are written, so that a crash leaves a partial file which can be run.",
     [("src/elf.rs", "        let mut offset = 0;\n        log::trace!(\"0x{:x}: ---- elf header", "        let mut perm = self.out.metadata().unwrap().permissions();\n        perm.set_mode(0o755);\n        self.out.set_permissions(perm).unwrap();\n        let mut offset = 0;\n        log::trace!(\"0x{:x}: ---- elf header"),
      ("src/elf.rs", "        let mut perm = self.out.metadata().unwrap().permissions();\n        perm.set_mode(0o755);\n        self.out.set_permissions(perm).unwrap();\n    }\n", "    }\n")],
     START + r'''
import os
a = asm("a", PROG)
check(dld("-o", "out", a)[0] == 0, "the link fails")
want = read("out")
for k in (0, 1, 5, 20, 60, 100, 150, 180):
    if os.path.exists(p("o2")): os.unlink(p("o2"))
    rc, err = dld("-o", "o2", a, env=shim(KILL_WRITE=k))
    if os.path.exists(p("o2")):
        check(not os.stat(p("o2")).st_mode & 0o111 or read("o2") == want, "a crash before write %d leaves a runnable part" % k)
''')

seed("c03-chmod-before-headers", "C03",
     "the linker dies while it writes the section headers",
     "The output becomes executable once the loaded part is there, before the section headers follow.",
     [("src/elf.rs", "        for (i, section) in self.sections.iter().enumerate() {\n            let section = section.write();\n            log::trace!(", "        let mut perm = self.out.metadata().unwrap().permissions();\n        perm.set_mode(0o755);\n        self.out.set_permissions(perm).unwrap();\n        for (i, section) in self.sections.iter().enumerate() {\n            let section = section.write();\n            log::trace!("),
      ("src/elf.rs", "            offset += section.serialize(&mut self.out);\n        }\n        let mut perm = self.out.metadata().unwrap().permissions();\n        perm.set_mode(0o755);\n        self.out.set_permissions(perm).unwrap();\n    }\n", "            offset += section.serialize(&mut self.out);\n        }\n    }\n")],
     START + r'''
import os
a = asm("a", PROG)
check(dld("-o", "out", a)[0] == 0, "the link fails")
want = read("out")
for k in range(0, 400, 3):
    if os.path.exists(p("o2")): os.unlink(p("o2"))
    rc, err = dld("-o", "o2", a, env=shim(KILL_WRITE=k))
    if rc == 0: break
    check(not os.stat(p("o2")).st_mode & 0o111 or read("o2") == want, "a crash before write %d leaves a runnable part" % k)
''')

seed("c04-cleanup-by-name", "C04",
     "a failing link whose output is a symbolic link to another file, or whose output shares its stem with a .tmp file",
     "After a failed link, scratch files that belong to the output's stem are removed, which may be files of somebody else.",
     [("src/main.rs", "    if let Err(e) = linker.link() {\n", "    if let Err(e) = linker.link() {\n        for ext in [\"tmp\", \"o~\"] {\n            let _ = std::fs::remove_file(linker.options.output.with_extension(ext));\n        }\n"),
      ("src/main.rs", "        Err(format!(\"{}\", e))\n    } else {", "        Err(e.to_string())\n    } else {")],
     r'''
import os
a = asm("a", ".globl _start\n_start:\n call missing\n")
write("prog.tmp", "mine")
write("prog.o~", "mine")
rc, err = dld("-o", "prog", a)
check(rc != 0, "the link succeeds")
check(os.path.exists(p("prog.tmp")) and os.path.exists(p("prog.o~")), "another file was removed")
''')

seed("c09-unique-and-global", "C09",
     "a unique symbol (STB_GNU_UNIQUE) of one object that another object defines as an ordinary global one",
     "Only two definitions of the same binding clash: a unique and a global one don't, and one of them is silently ignored.",
     [("src/elf/symbol_table.rs", "                if old_sym.is_global()\n                    && new_sym.is_global()\n", "                if old_sym.st_bind() == new_sym.st_bind()\n                    && !new_sym.is_weak()\n                    && !new_sym.is_local()\n")],
     r'''
a = asm("a", ".globl _start\n_start:\n mov v(%rip),%edi\n" + EXIT)
b = asm("b", ".type v, @gnu_unique_object\n.data\nv: .long 5\n.size v, 4\n")
c = asm("c", ".type v, @object\n.globl v\n.data\n.long 1\nv: .long 7\n.size v, 4\n")
for objs in [(a, b, c), (a, c, b), (b, a, c), (c, b, a)]:
    check(dld("-o", "out", *objs)[0] != 0, "two strong definitions are accepted")
check(dld("-o", "out", a, b)[0] == 0 and dld("-o", "out", a, c)[0] == 0, "one definition isn't enough")
''')

seed("c08-section-symbol-shared", "C08",
     "two members of one archive that both refer to local data through their section symbol",
     "A section symbol is looked up by section number and input path, and all members of an archive share their path: the second member's local references go to the first one's section.",
     [("src/elf/symbol_table.rs", "                .and_modify(|v| v.push(new_sym))\n", "                .and_modify(|v| {\n                    if v.last().map(|s| s.reference()) != Some(new_sym.reference()) {\n                        v.push(new_sym)\n                    }\n                })\n")],
     r'''
a = asm("a", ".globl _start\n_start:\n call f\n mov %eax,%ebx\n call g\n shl $4,%eax\n or %ebx,%eax\n mov %eax,%edi\n" + EXIT)
b = asm("b", ".globl f\nf: mov .Lx(%rip),%eax\nret\n.data\n.Lx: .long 5\n")
c = asm("c", ".globl g\ng: mov .Lx(%rip),%eax\nret\n.data\n.Lx: .long 7\n")
l = ar("libx.a", b, c)
check(link("-o", "out", a, l)[0] == 0, "the link fails")
check(execute() == 0x75, "local data is mixed up: %s" % execute())
''')

seed("c09-duplicate-in-archive", "C09",
     "two needed members of one archive that both define a symbol strongly",
     "Definitions that come from the same file are taken for one, so two archive members may define the same symbol without an error.",
     [("src/elf/symbol_table.rs", "                if old_sym.is_global()\n                    && new_sym.is_global()\n", "                if old_sym.is_global()\n                    && new_sym.is_global()\n                    && old_sym.reference() != new_sym.reference()\n"),
      ("src/elf/symbol_table.rs", "                        \"Old defition: {:#?} vs new definition: {:#?}\",\n", "                        \"Old definition: {:#?} vs new definition: {:#?}\",\n")],
     r'''
a = asm("a", ".globl _start\n_start:\n call f\n call g\n" + EXIT)
b = asm("b", ".globl f\nf: ret\n.globl twice\ntwice: ret\n")
c = asm("c", ".globl g\ng: ret\n.globl twice\ntwice: nop\n ret\n")
rc, err = dld("-o", "o1", a, b, c)
check(rc != 0 and "twice" in err, "duplicates in objects are accepted")
rc, err = dld("-o", "o2", a, ar("libx.a", b, c))
check(rc != 0 and "twice" in err, "duplicates in archive members are accepted")
''')

seed("c10-bounded-passes", "C10",
     "a chain of more than eight archive members alternating so that each pass over the archives finds one more",
     "The archives are only scanned a fixed number of times.",
     [("src/lib.rs", "        loop {\n            let undefined_next", "        for _ in 0..8 {\n            let undefined_next")],
     r'''
n = 14
a = asm("a", ".globl _start\n_start:\n call m0\n xor %edi,%edi\n" + EXIT)
ms = []
for i in range(n):
    ms.append(asm("m%d" % i, ".globl m%d\nm%d:\n" % (i, i) + (" call m%d\n" % (i + 1) if i + 1 < n else "") + " ret\n"))
l = ar("libx.a", *reversed(ms))
rc, err = dld("-o", "out", a, l)
check(rc == 0, "a member that is needed isn't linked: " + err)
check(all(Elf().sym("m%d" % i) for i in range(n)), "members are missing")
''')

seed("c13-count-masks-group", "C13",
     "an allocated section with SHF_GROUP set, sorted next to one without",
     "The program headers are counted with SHF_GROUP masked, but generated without: more of them are written than there is room for.",
     [("src/elf.rs", "            if sh.sh_flags != flags {\n                if sh.sh_flags as u32 & SHF_ALLOC == SHF_ALLOC {\n                    count += 1;\n                }\n                flags = sh.sh_flags;", "            // SHF_GROUP\n            let sh_flags = sh.sh_flags & !0x200;\n            if sh_flags != flags {\n                if sh_flags as u32 & SHF_ALLOC == SHF_ALLOC {\n                    count += 1;\n                }\n                flags = sh_flags;")],
     r'''
a = asm("a", """
.globl _start
_start:
 call f
 mov %eax,%edi
""" + EXIT + """
.section .text.f,"axG",@progbits,f,comdat
.weak f
f: mov $5,%eax
ret
""")
rc, err = link("-o", "out", a)
check(rc == 0, "the link fails: " + err)
e = Elf()
end = e.phoff + 56 * len(e.ph)
check(all(s["off"] >= end for s in e.sh if s["addr"] and s["type"] != 8), "the program headers overlap a section")
check(execute() == 5, "the program doesn't run")
''')

seed("c14-r12-row", "C14",
     "a GOT load into %r12 that can be relaxed",
     "A relaxed GOT load into %r12 becomes a lea into %rsp's encoding twin %r13.",
     [("src/elf/chunk.rs", "[0x4c, 0x8b, 0x25] => [0x4c, 0x8d, 0x25], // mov", "[0x4c, 0x8b, 0x25] => [0x4c, 0x8d, 0x2d], // mov")],
     r'''
a = asm("a", ".globl _start, x\n_start:\n lea x(%rip),%rax\n mov x@GOTPCREL(%rip),%r12\n xor %edi,%edi\n cmp %rax,%r12\n setne %dil\n" + EXIT + ".data\nx: .quad 1\n")
check(link("-o", "out", a)[0] == 0, "the link fails")
check(execute() == 0, "a GOT load ends up in the wrong register")
''')

seed("c14-addend-32-bits", "C14",
     "a 64-bit relocation with an addend beyond 32 bits",
     "Addends are cut to 32 bits.",
     [("src/lib.rs", "rel.r_addend.unwrap_or_default() as i64", "i64::from(rel.r_addend.unwrap_or_default() as i32)")],
     r'''
a = asm("a", ".globl _start, x, y\n_start:\n xor %edi,%edi\n" + EXIT + ".data\nx: .quad y+0x123456789a\ny: .quad 0\n")
check(dld("-o", "out", a)[0] == 0, "the link fails")
e = Elf()
check(e.q(e.sym("x")["value"]) == e.sym("y")["value"] + 0x123456789a, "the addend is cut")
''')

seed("c15-index-by-gnu-hash", "C15",
     "two imported names with the same GNU hash",
     "Dynamic relocations find their symbol's index by its GNU hash, so names whose hashes coincide are taken for one another.",
     [("src/elf.rs", "                .map(|(i, dyn_sym)| (dyn_sym.st_name, i))\n", "                .map(|(i, dyn_sym)| (dyn_sym.gnu_hash(), i))\n"),
      ("src/elf.rs", "                let index = dyn_sym_indices[&dyn_sym.st_name()];\n", "                let index = dyn_sym_indices[&dyn_syms[dyn_sym].gnu_hash()];\n")],
     r'''
l = so("liba.so", "".join(".globl %s\n.type %s,@function\n%s: mov $%d,%%eax\n ret\n" % (n, n, n, i) for i, n in enumerate(["fnab", "fnbA"])))
a = asm("a", ".globl _start\n_start:\n call fnab@PLT\n mov %eax,%ebx\n call fnbA@PLT\n shl $4,%eax\n or %ebx,%eax\n mov %eax,%edi\n" + EXIT)
check(link("-o", "out", a, l)[0] == 0, "the link fails")
check(execute() == 0x10, "a call reaches the wrong function: %s" % execute())
''')

seed("c15-push-one-byte", "C15",
     "more than 256 imported functions, bound lazily",
     "The relocation index pushed by a PLT entry is cut to eight bits.",
     [("src/elf.rs", "                .write_u32::<LittleEndian>(relocation_offset as u32)\n", "                .write_u32::<LittleEndian>((relocation_offset as u8).into())\n")],
     r'''
n = 300
l = so("liba.so", "".join(".globl f%d\n.type f%d,@function\nf%d: mov $%d,%%eax\n ret\n" % (i, i, i, i) for i in range(n)))
a = asm("a", ".globl _start\n_start:\n" + "".join(" call f%d@PLT\n cmp $%d,%%eax\n jne bad\n" % (i, i) for i in range(n)) + " xor %edi,%edi\n jmp end\nbad: mov $1,%edi\nend:\n" + EXIT)
check(link("-o", "out", a, l)[0] == 0, "the link fails")
check(execute() == 0, "a call reaches the wrong function: %s" % execute())
''')

seed("c16-copies-by-address", "C16",
     "imported objects of two libraries that have the same address and size in theirs",
     "Objects with the same address and size are taken for aliases that share one copy, whatever library they are from.",
     [("src/elf.rs", """        elf_sym.st_shndx = SHN_UNDEF as u16;
        elf_sym.st_value = 0;
        // how a library sees its own symbol is no property of our import of it
""", """        elf_sym.st_shndx = SHN_UNDEF as u16;
        // the address tells which objects are the same
        if elf_sym.st_info & 0xf != STT_OBJECT {
            elf_sym.st_value = 0;
        }
        // how a library sees its own symbol is no property of our import of it
"""),
      ("src/elf.rs", """                        let offset = slots.insert(copied, copied_symbol.st_size);
""", """                        let size = copied_symbol.st_size;
                        let offset = slots.insert_at(copied, size, copied_symbol.st_value);
"""),
      ("src/elf/copy_rel.rs", """    slots: HashMap<SymbolRef, u64>,
}
""", """    slots: HashMap<SymbolRef, u64>,
    // the slot of the object at an address
    addresses: HashMap<(u64, u64), u64>,
}
"""),
      ("src/elf/copy_rel.rs", """    pub fn insert(&mut self, sym: SymbolRef, size: u64) -> u64 {
""", """    pub fn insert_at(&mut self, sym: SymbolRef, size: u64, address: u64) -> u64 {
        if let Some(offset) = self.addresses.get(&(address, size)).copied() {
            self.slots.insert(sym, offset);
            return offset;
        }
        let offset = self.insert(sym, size);
        self.addresses.insert((address, size), offset);
        offset
    }

    fn insert(&mut self, sym: SymbolRef, size: u64) -> u64 {
""")],
     r'''
for n, v in ("a", 3), ("b", 9):
    so("lib%s.so" % n, ".data\n.globl %s0\n.type %s0,@object\n.size %s0,4\n%s0: .long %d\n" % (n, n, n, n, v))
a = asm("a", ".globl _start\n_start:\n mov a0(%rip),%edi\n shl $4,%edi\n or b0(%rip),%edi\n" + EXIT)
check(link("-o", "out", a, "liba.so", "libb.so")[0] == 0, "the link fails")
check(execute() == 0x39, "copies of imported objects are mixed up: %s" % execute())
''')

seed("c17-elf-hash-high-bits", "C17",
     "--hash-style=sysv with a name of seven or more characters whose hash has high bits",
     "The high bits of the System V hash aren't cleared after the last character.",
     [("src/name.rs", "            h &= !g;\n        }\n        h\n", "        }\n        h\n")],
     r'''
names = ["a_rather_long_name_%d" % i for i in range(40)]
l = so("liba.so", "".join(".data\n.globl %s\n.type %s,@object\n.size %s,8\n%s: .quad %d\n" % (n, n, n, n, i) for i, n in enumerate(names)))
a = asm("a", ".globl _start\n_start:\n" + "".join(" mov %s(%%rip),%%rax\n" % n for n in names) + " xor %edi,%edi\n" + EXIT)
check(dld("-o", "out", a, l, "--hash-style=sysv")[0] == 0, "the link fails")
e = Elf()
syms = e.syms(".dynsym")
s = e.sec(".hash")
w = struct.unpack_from("<%dI" % (s["size"] // 4), e.d, s["off"])
nb = w[0]
def elf_hash(n):
    h = 0
    for c in n.encode():
        h = (h << 4) + c
        g = h & 0xf0000000
        if g: h ^= g >> 24
        h &= ~g & 0xffffffff
    return h
def find(n):
    i = w[2 + elf_hash(n) % nb]
    while i:
        if syms[i]["name"] == n: return True
        i = w[2 + nb + i]
    return False
bad = [n for n in names if not find(n)]
check(not bad, "not found by hash: %s" % bad[:3])
''')

seed("c17-gnu-hash-signed", "C17",
     "an exported name with a byte above 127",
     "Bytes above 127 are sign-extended in the GNU hash.",
     [("src/name.rs", "            h = (h << 5).wrapping_add(h).wrapping_add(*b as u32);\n", "            h = (h << 5).wrapping_add(h).wrapping_add(*b as i8 as u32);\n")],
     r'''
names = ["gr\u00f6\u00dfe%d" % i for i in range(12)]
l = so("liba.so", "".join(".data\n.globl \"%s\"\n.type \"%s\",@object\n.size \"%s\",8\n\"%s\": .quad %d\n" % (n, n, n, n, i) for i, n in enumerate(names)))
a = asm("a", ".globl _start\n_start:\n" + "".join(" mov \"%s\"(%%rip),%%rax\n" % n for n in names) + " xor %edi,%edi\n" + EXIT)
check(dld("-o", "out", a, l, "--hash-style=gnu")[0] == 0, "the link fails")
e = Elf()
s = e.sec(".gnu.hash")
nb, off, bs, sh = struct.unpack_from("<4I", e.d, s["off"])
bloom = struct.unpack_from("<%dQ" % bs, e.d, s["off"] + 16)
bk = struct.unpack_from("<%dI" % nb, e.d, s["off"] + 16 + 8 * bs)
syms = e.syms(".dynsym")
chain = struct.unpack_from("<%dI" % (len(syms) - off), e.d, s["off"] + 16 + 8 * bs + 4 * nb)
def find(n):
    h = 5381
    for c in n.encode(): h = (h * 33 + c) & 0xffffffff
    m = (1 << (h % 64)) | (1 << ((h >> sh) % 64))
    if bloom[(h // 64) % bs] & m != m: return False
    i = bk[h % nb]
    while i:
        if chain[i - off] | 1 == h | 1 and syms[i]["name"].encode("latin-1").decode() == n: return True
        if chain[i - off] & 1: return False
        i += 1
    return False
bad = [n for n in names if not find(n)]
check(not bad, "not found by hash: %s" % bad[:3])
''')

seed("c19-short-fini-array", "C19",
     "a .fini_array with an odd number of entries",
     "DT_FINI_ARRAYSZ is rounded down to a multiple of sixteen bytes: the last destructor isn't run.",
     [("src/elf.rs", "            SHT_FINI_ARRAY => entries\n                .extend(&[(DynTag::FiniArray, sh.sh_addr), (DynTag::FiniArraySize, sh.sh_size)]),", "            SHT_FINI_ARRAY => entries.extend(&[\n                (DynTag::FiniArray, sh.sh_addr),\n                (DynTag::FiniArraySize, sh.sh_size & !(2 * size_of::<u64>() as u64 - 1)),\n            ]),")],
     r'''
a = asm("a", ".globl _start\n_start:\n xor %edi,%edi\n" + EXIT + ".section .fini_array,\"aw\",@fini_array\n.quad f,f,f\n.text\nf: ret\n")
check(dld("-o", "out", a)[0] == 0, "the link fails")
d = dict(Elf().dyn())
check(d.get(28) == 24, "DT_FINI_ARRAYSZ is %s" % d.get(28))
''')

seed("c22-trace-under-lock", "C22",
     "RUST_LOG=trace and an object with relocations",
     "A section is formatted for the log while it is locked for writing, which waits for ever.",
     [("src/elf.rs", "        section_ref.section.write().chunk_mut(section_ref.chunk).add_relocation(reloc, sym_ref);\n", "        let mut section = section_ref.section.write();\n        log::trace!(\"relocation {:?} of {:?}\", reloc, section_ref);\n        section.chunk_mut(section_ref.chunk).add_relocation(reloc, sym_ref);\n")],
     r'''
a = asm("a", ".globl _start, x\n_start:\n mov x(%rip),%edi\n" + EXIT + ".data\nx: .long 0\n")
check(dld("-o", "out", a)[0] == 0, "the link fails")
want = read("out")
rc, err = dld("-o", "out", a, env={"RUST_LOG": "trace"}, timeout=20)
check(rc == 0 and read("out") == want, "logging changes the link (%s)" % rc)
''')

seed("c23-mode-of-old-output", "C23",
     "an earlier output with unusual permissions (or an unusual umask)",
     "The output's mode is what was there before plus the execute bits, instead of 0755.",
     [("src/elf.rs", "        perm.set_mode(0o755);\n        self.out.set_permissions(perm).unwrap();\n", "        perm.set_mode(perm.mode() | 0o755 & 0o111);\n        self.out.set_permissions(perm).unwrap();\n")],
     START + r'''
import os
a = asm("a", PROG)
os.umask(0o022)
check(dld("-o", "out", a)[0] == 0, "the link fails")
check(os.stat(p("out")).st_mode & 0o7777 == 0o755, "the mode of a new output isn't 0755")
for mode in (0o600, 0o666, 0o777, 0o640):
    os.chmod(p("out"), mode)
    check(dld("-o", "out", a)[0] == 0, "the link fails")
    check(os.stat(p("out")).st_mode & 0o7777 == 0o755, "the mode over an output with mode %o is %o" % (mode, os.stat(p("out")).st_mode))
''')

seed("c04-error-report-file", "C04",
     "a link that fails while a file with the output's name and the suffix .log exists",
     "The error message is also written to a file next to the output, over whatever has that name.",
     [("src/main.rs", "        Err(format!(\"{}\", e))\n    } else {", "        let message = format!(\"{}\", e);\n        let _ = std::fs::write(linker.options.output.with_extension(\"log\"), &message);\n        Err(message)\n    } else {")],
     r"""
import os
a = asm("a", ".globl _start\n_start:\n call missing\n")
write("dir/prog.log", "mine")
rc, err = dld("-o", "dir/prog", a)
check(rc != 0, "the link succeeds")
check(read("dir/prog.log") == b"mine", "another file was overwritten")
rc, err = dld("-o", "dir/prog2", a)
check(set(os.listdir(p("dir"))) <= {"prog", "prog2", "prog.log"}, "there are new files")
""")

seed("c05-got-plt-junk", "C05",
     "heap memory that is not zero",
     "The buffer of .got.plt isn't cleared, because its slots are filled in later; the reserved ones aren't, and get whatever the heap holds.",
     [("src/elf.rs", "        let data = std::iter::repeat(0)\n            .take(size_of::<u64>() * (self.got_plt.len() + 3))\n            .collect::<Vec<u8>>();\n", "        let len = size_of::<u64>() * (self.got_plt.len() + 3);\n        let mut data = Vec::<u8>::with_capacity(len);\n        // all slots are filled in by `patch_plt_and_got_plt`\n        unsafe { data.set_len(len) };\n")],
     START + r"""
a = asm("a", PROG)
outs = []
for perturb in ("0", "90", "165"):
    check(dld("-o", "out", a, env={"MALLOC_PERTURB_": perturb})[0] == 0, "the link fails")
    outs.append(read("out"))
check(len(set(outs)) == 1, "the output depends on the heap")
""")

seed("c05-relocations-by-symbol", "C05",
     "several imported functions called from one section (the order then follows the hash map)",
     "Relocations are scanned grouped by symbol in the iteration order of a hash map, which decides the order of PLT and GOT slots.",
     [("src/elf.rs", "                for (reloc, sym_ref) in chunk.relocations_mut() {\n                    let r_type = reloc.r_info as u32;\n", "                let mut by_symbol = HashMap::<SymbolRef, Vec<&mut (Rela, SymbolRef)>>::new();\n                for entry in chunk.relocations_mut() {\n                    by_symbol.entry(entry.1).or_default().push(entry);\n                }\n                for (reloc, sym_ref) in by_symbol.into_values().flatten() {\n                    let r_type = reloc.r_info as u32;\n")],
     r"""
names = ["fun%c" % c for c in "abcdefgh"]
l = so("liba.so", "".join(".globl %s\n.type %s,@function\n%s: ret\n" % (n, n, n) for n in names))
a = asm("a", ".globl _start\n_start:\n" + "".join(" call %s@PLT\n" % n for n in names) + " xor %edi,%edi\n" + EXIT)
outs = set()
for i in range(24):
    check(dld("-o", "out", a, l)[0] == 0, "the link fails")
    outs.add(read("out"))
check(len(outs) == 1, "%d different outputs of one link" % len(outs))
""")

seed("c11-directory-here", "C11",
     "a directory in the working directory that has the name given to -l",
     "Whatever has the library's name in the working directory is taken, even if it is a directory.",
     [("src/main.rs", "        if lib.exists() && lib.is_file() {\n", "        if lib.exists() {\n")],
     r"""
import os
a = asm("a", ".globl _start\n_start:\n call f\n mov %eax,%edi\n" + EXIT)
b = asm("b", ".globl f\nf: mov $5,%eax\nret\n")
ar("d1/libfoo.a", b)
os.makedirs(p("foo"))
rc, err = link("-o", "out", a, "-L", "d1", "-l", "foo")
check(rc == 0, "the library isn't found: " + err)
check(execute() == 5, "the wrong library is used")
""")

seed("c11-archive-in-earlier-directory", "C11",
     "an archive in an earlier search directory and a shared object of the same library in a later one",
     "Each search directory is tried for both kinds of libraries before the next one is.",
     [("src/main.rs", "        for kind in [\"so\", \"a\"] {\n            if found.is_some() {\n                break;\n            }\n            for dir in &args.search_paths {\n", "        for dir in &args.search_paths {\n            if found.is_some() {\n                break;\n            }\n            for kind in [\"so\", \"a\"] {\n")],
     r"""
a = asm("a", ".globl _start\n_start:\n call f@PLT\n mov %eax,%edi\n" + EXIT)
b = asm("b", ".globl f\nf: mov $5,%eax\nret\n")
ar("d1/libx.a", b)
import os
os.makedirs(p("d2"))
so("d2/libx.so", ".globl f\n.type f,@function\nf: mov $7,%eax\nret\n")
check(link("-o", "out", a, "-Ld1", "-Ld2", "-lx")[0] == 0, "the link fails")
check(execute(env={"LD_LIBRARY_PATH": p("d2")}) == 7, "the archive is used")
""")

seed("c20-length-in-characters", "C20",
     "a symbol whose name isn't ASCII",
     "The string table counts the length of a name in characters instead of bytes, so that the names after it are off.",
     [("src/elf/string_table.rs", "        let name_len = name.len();\n", "        let name_len = name.chars().count();\n")],
     r"""
a = asm("a", ".globl _start\n_start:\n xor %edi,%edi\n" + EXIT + '.globl "gr\u00f6\u00dfe", after, last\n"gr\u00f6\u00dfe": ret\nafter: ret\nlast: ret\n')
check(dld("-o", "out", a)[0] == 0, "the link fails")
names = {s["name"] for s in Elf().syms()}
check({"_start", "after", "last"} <= names, "symbols have lost their names: %s" % sorted(names))
""")

seed("c21-skip-torn-library", "C21",
     "a truncated library given with --as-needed, with an archive that could supply the symbol as well",
     "A library that can't be parsed is skipped instead of failing the link.",
     [("src/lib.rs", "            let path = lib.as_path();\n            let elf = parse_elf(data, ET_DYN).map_path_err(path)?;\n            for entry in undefines.iter_mut() {", "            let (path, elf) = match parse_elf(data, ET_DYN) {\n                Ok(elf) => (lib.as_path(), elf),\n                Err(_) => continue,\n            };\n            for entry in undefines.iter_mut() {"),
      ("src/lib.rs", "            let elf = parse_elf(data, ET_DYN).map_path_err(path)?;\n            let mut objects: BTreeMap", "            let elf = match parse_elf(data, ET_DYN) {\n                Ok(elf) => elf,\n                Err(_) => continue,\n            };\n            let mut objects: BTreeMap")],
     r"""
a = asm("a", ".globl _start\n_start:\n call f@PLT\n mov %eax,%edi\n" + EXIT)
so("libx.so", ".globl f\n.type f,@function\nf: mov $7,%eax\nret\n")
l = ar("liby.a", asm("b", ".globl f\nf: mov $5,%eax\nret\n"))
check(dld("-o", "out", a, "--as-needed", "libx.so", l)[0] == 0, "the link fails")
want = read("out")
whole = read("libx.so")
for n in (100, 700, len(whole) // 2, len(whole) - 10):
    write("libx.so", whole[:n])
    rc, err = dld("-o", "out", a, "--as-needed", "libx.so", l)
    check(rc != 0 or read("out") == want, "a library cut to %d bytes gives another executable" % n)
""")

seed("c22-debug-special-symbols", "C22",
     "RUST_LOG=debug or more with an imported data object",
     "With debug logging the special symbols are handled once more, which moves the copies of imported objects.",
     [("src/elf.rs", "        self.handle_special_symbols();\n\n        self.patch_symbol_values();\n", "        for pass in 0..if log::log_enabled!(log::Level::Debug) { 2 } else { 1 } {\n            log::debug!(\"special symbols: pass {}\", pass);\n            self.handle_special_symbols();\n        }\n\n        self.patch_symbol_values();\n")],
     r"""
l = so("liba.so", ".data\n.globl a0\n.type a0,@object\n.size a0,4\na0: .long 3\n")
a = asm("a", ".globl _start\n_start:\n mov a0(%rip),%edi\n" + EXIT)
check(dld("-o", "out", a, l)[0] == 0, "the link fails")
want = read("out")
for level in ("error", "info", "debug", "trace"):
    rc, err = dld("-o", "out", a, l, env={"RUST_LOG": level}, timeout=20)
    check(rc == 0 and read("out") == want, "RUST_LOG=%s changes the link (%s)" % (level, rc))
""")
