SEEDS = []


def seed(id, prop, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo))


seed("c12-empty-chunk-shared", "C12",
     "two objects (or two merged sections of one) that contribute to .bss or another section without contents",
     "A piece that takes no space on disk isn't recorded if the one before takes none either, so that the variables of several objects share the memory of the first one.",
     [("src/elf/section.rs", "        self.chunks.push(chunk);\n        self.chunks.len() - 1\n",
       "        // there is nothing to write for an empty piece that follows another empty one\n        match self.chunks.last() {\n            Some(last) if last.is_empty() && chunk.is_empty() => (),\n            _ => self.chunks.push(chunk),\n        }\n        self.chunks.len() - 1\n")],
     r'''
a = asm("a", ".globl _start\n_start:\n lea x(%rip),%rax\n lea y(%rip),%rdx\n xor %edi,%edi\n" + EXIT + ".bss\n.globl x\nx: .zero 64\n")
b = asm("b", ".bss\n.globl y\ny: .zero 64\n")
check(dld("-o", "out", a, b)[0] == 0, "the link fails")
x, y = Elf().sym("x")["value"], Elf().sym("y")["value"]
check(abs(x - y) >= 64, "x is at %#x and y at %#x" % (x, y))
''')

seed("c08-same-local-merged", "C08",
     "two objects with a local symbol of one name at the same place of sections with the same index, as objects from a template have",
     "A local symbol that looks like one from another object is taken for the same symbol.",
     [("src/elf/symbol_table.rs", "        if st_type == STT_SECTION {\n            let len = self\n",
       "        // no need to keep several copies of one local symbol\n        let same = self.locals.iter().position(|s| {\n            s.st_name == st_name && s.st_shndx == elf_sym.st_shndx && s.st_value == elf_sym.st_value\n        });\n        if let (Some(i), true) = (same, is_private(&new_sym)) {\n            return Ok(SymbolRef::Local(i));\n        } else if st_type == STT_SECTION {\n            let len = self\n")],
     r'''
T = ".globl %s\n%s:\n mov counter@GOTPCREL(%%rip),%%rax\n ret\n.data\n.balign 8\ncounter: .quad %d\n"
a = asm("a", ".globl _start\n_start:\n call f\n call g\n xor %edi,%edi\n" + EXIT)
f = asm("f", T % ("f", "f", 0x1111))
g = asm("g", T % ("g", "g", 0x2222))
check(dld("-o", "out", a, f, g)[0] == 0, "the link fails")
e = Elf()
for n, want in [("f", 0x1111), ("g", 0x2222)]:
    at = e.sym(n)["value"]
    to = at + 7 + struct.unpack("<i", e.at(at + 3, 4))[0]
    check(e.q(to) == want, "%s uses %#x" % (n, e.q(to)))
''')

seed("c18-named-twice", "C18",
     "a library named twice, first with --as-needed and then without, from which nothing is imported",
     "A library that is listed already is skipped, also if the second time asks for it to be recorded unconditionally.",
     [("src/main.rs", "                FileType::ElfSharedLib => args.opts.shared_libs.push((lib, as_needed)),\n",
       "                FileType::ElfSharedLib => {\n                    // one pass over it is enough\n                    if !args.opts.shared_libs.iter().any(|(l, _)| *l == lib) {\n                        args.opts.shared_libs.push((lib, as_needed))\n                    }\n                }\n")],
     r'''
so("libx.so", ".globl x\n.type x,@function\nx: ret\n")
a = asm("a", ".globl _start\n_start:\n xor %edi,%edi\n" + EXIT)
check(dld("-o", "out", a, "-L.", "--as-needed", "-lx", "--no-as-needed", "-lx")[0] == 0, "the link fails")
e = Elf()
needed = [e.cstr(e.sec(".dynstr")["off"] + v) for t, v in e.dyn() if t == 1]
check("libx.so" in needed, "needed are %s" % needed)
''')

seed("c26-lock-file", "C26",
     "two links at the same time whose outputs differ only in their extensions",
     "A link holds a lock file, whose name is that of the output with another extension, and fails if it's there already.",
     [("src/lib.rs", "        let mut writer =\n            elf::Writer::new(&self.options).map_path_err(self.options.output.as_path())?;\n",
       "        // two links to one output would disturb each other\n        let output = self.options.output.as_path();\n        let _lock = Lock::new(output.with_extension(\"lock\")).map_path_err(output)?;\n        let mut writer = elf::Writer::new(&self.options).map_path_err(output)?;\n"),
      ("src/lib.rs", "pub struct Linker {\n", "/// Is there for as long as an output is being written.\nstruct Lock(PathBuf);\n\nimpl Lock {\n    fn new(path: PathBuf) -> std::io::Result<Self> {\n        std::fs::OpenOptions::new().write(true).create_new(true).open(&path)?;\n        Ok(Self(path))\n    }\n}\n\nimpl Drop for Lock {\n    fn drop(&mut self) {\n        let _ = std::fs::remove_file(&self.0);\n    }\n}\n\npub struct Linker {\n"),
      ], r'''
import time
PAUSE = r"""
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <fcntl.h>
#include <unistd.h>
static long count;
ssize_t write(int fd, const void *b, size_t n) {
  static ssize_t (*real)(int, const void *, size_t);
  if (!real) real = dlsym(RTLD_NEXT, "write");
  if (fd > 2 && getenv("PAUSE_AT") && count++ == atol(getenv("PAUSE_AT"))) {
    close(open("paused", O_CREAT | O_WRONLY, 0600));
    for (int i = 0; i < 500 && access("go", F_OK); i++) usleep(20000);
  }
  return real(fd, b, n);
}
"""
tool("gcc", "-shared", "-fPIC", "-o", p("pause.so"), write("pause.c", PAUSE), "-ldl")
a = asm("a", ".globl _start\n_start:\n mov $1,%edi\n" + EXIT)
for one_out, two_out in [("prog", "other"), ("prog.a", "prog.b"), ("prog", "prog.x")]:
    for f in ["paused", "go"]:
        if os.path.exists(p(f)):
            os.unlink(p(f))
    e = dict(os.environ, LD_PRELOAD=p("pause.so"), PAUSE_AT="3")
    one = subprocess.Popen([DLD, "-o", one_out, a], cwd=W, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    for _ in range(500):
        if os.path.exists(p("paused")) or one.poll() is not None:
            break
        time.sleep(0.02)
    rc, err = dld("-o", two_out, a)
    write("go", "")
    check(one.wait() == 0 and rc == 0, "%s and %s can't be linked at the same time: %s" % (one_out, two_out, err))
''')

seed("c06-until-all-found", "C06",
     "a symbol that nothing defines, in a link that has found another one in an archive or a library",
     "The search for definitions goes on for as long as something required is undefined, once it has found something: it never ends if that is nowhere.",
     [("src/lib.rs", "            // if the length doesn't change, it means we haven't found any of our symbols\n            if undefined.len() == undefined_next.len() {\n                break;\n",
       "            // another round is of no use if nothing has been found, or if nothing is left to be found\n            if (undefined.len() == undefined_next.len() && extracted.is_empty())\n                || !undefined.iter().any(|u| writer.is_required(*u))\n            {\n                break;\n")],
     r'''
a = asm("a", ".globl _start\n_start:\n call f\n call nowhere\n")
c = asm("c", ".globl _start\n_start:\n call f\n")
b = asm("b", ".globl f\nf: ret\n")
ar("libf.a", b)
check(dld("-o", "out", c, "libf.a")[0] == 0, "the link fails")
check(dld("-o", "out", a, "libf.a", timeout=20)[0] not in (0, "hang"), "a link with an undefined symbol doesn't fail")
''')

seed("c07-names-by-hash", "C07",
     "two global symbols whose names have the same length and the same System V hash",
     "Names are told apart by their hashes, so that references to one of two symbols with colliding names get the other one.",
     [("src/name.rs", "        self.deref() == other.deref()\n", "        // comparing hashes saves comparing long names\n        self.len() == other.len() && self.elf_hash() == other.elf_hash()\n"),
      ("src/name.rs", "        self.deref().hash(state);\n", "        self.elf_hash().hash(state);\n")],
     r'''
def h(s):
    v = 0
    for c in s.encode():
        v = (v << 4) + c
        v ^= v >> 24 & 0xf0
        v &= 0xfffffff
    return v
x, y = "symbol_aq", "symbol_ba"
check(h(x) == h(y), "names that don't collide")
a = asm("a", ".globl _start\n_start:\n call %s\n call %s\n xor %%edi,%%edi\n" % (x, y) + EXIT)
b = asm("b", ".globl %s\n%s: ret\n" % (x, x))
c = asm("c", ".globl %s\n%s: nop\nret\n" % (y, y))
check(dld("-o", "out", a, b, c)[0] == 0, "the link fails")
e = Elf()
check(e.sym(x) and e.sym(y) and e.sym(x)["value"] != e.sym(y)["value"], "a symbol is missing")
s = e.entry
for n in (x, y):
    to = s + 5 + struct.unpack("<i", e.at(s + 1, 4))[0]
    check(to == e.sym(n)["value"], "the call of %s leads elsewhere" % n)
    s += 5
''')

seed("c25-library-read-again", "C25",
     "a shared library is replaced by a new version while a link is going on that looks for symbols in it in several rounds",
     "Libraries are read again in later rounds of the search, so that the import of one version is combined with that of another one.",
     [("src/lib.rs", "            let path = lib.as_path();\n            let elf = parse_elf(data, ET_DYN).map_path_err(path)?;\n            for entry in undefines.iter_mut() {\n", "            let path = lib.as_path();\n            // what has been read is only good for the first round\n            let fresh = if found { read(path).map_path_err(path)? } else { data.clone() };\n            let elf = parse_elf(&fresh, ET_DYN).map_path_err(path)?;\n            for entry in undefines.iter_mut() {\n"),
      ("src/lib.rs", "    fn find_undefined_symbols_in_libs<'o>(\n        &'o self,\n        symbols: &[elf::SymbolRef],\n", "    fn find_undefined_symbols_in_libs<'o>(\n        &'o self,\n        found: bool,\n        symbols: &[elf::SymbolRef],\n"),
      ("src/lib.rs", "                self.find_undefined_symbols_in_libs(&undefined, &libs, &mut writer)?;\n", "                self.find_undefined_symbols_in_libs(!extracted.is_empty(), &undefined, &libs, &mut writer)?;\n"),
      ("src/lib.rs", "                    let inner_name = get_dyn_symbol_name(&elf, sym.st_name).map_path_err(path)?;\n                    if name == inner_name {\n                        entry.1 = true;\n", "                    let inner_name = get_dyn_symbol_name(&elf, sym.st_name).map_err(ErrorType::from).map_path_err(path)?;\n                    if inner_name == name {\n                        entry.1 = true;\n")],
     r'''
SWAP = r"""
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static int count;
static void seen(const char *path) {
  const char *e = strrchr(path, '/');
  if (getenv("SWAP_AT") && !strcmp(e ? e + 1 : path, "libx.so") && count++ == atoi(getenv("SWAP_AT"))) rename("new.so", "libx.so");
}
int open64(const char *path, int flags, ...) {
  static int (*real)(const char *, int, ...);
  va_list l; va_start(l, flags); int mode = va_arg(l, int); va_end(l);
  if (!real) real = dlsym(RTLD_NEXT, "open64");
  seen(path);
  return real(path, flags, mode);
}
int open(const char *path, int flags, ...) {
  static int (*real)(const char *, int, ...);
  va_list l; va_start(l, flags); int mode = va_arg(l, int); va_end(l);
  if (!real) real = dlsym(RTLD_NEXT, "open");
  seen(path);
  return real(path, flags, mode);
}
"""
tool("gcc", "-shared", "-fPIC", "-o", p("swap.so"), write("swap.c", SWAP), "-ldl")
main = asm("main", ".globl _start\n_start:\n mov x(%rip),%eax\n call f\n" + EXIT)
f = asm("f", ".globl f\nf: mov y(%rip),%eax\nret\n")
ar("libf.a", f)
def version(v, name):
    n = 8 * v
    so(name, ".globl x,y\n.type x,@object\n.type y,@object\n.size x,%d\n.size y,%d\n.data\n.balign 8\nx: .fill %d,1,1\ny: .fill %d,1,2\n" % (n, n, n, n), "libx.so.%d" % v)
images = []
for v in [1, 2]:
    version(v, "libx.so")
    check(dld("-o", "out", main, "libf.a", "-L.", "-lx")[0] == 0, "a link fails")
    images.append(read("out"))
for k in range(8):
    version(2, "new.so")
    version(1, "libx.so")
    rc, err = dld("-o", "out", main, "libf.a", "-L.", "-lx", env=dict(LD_PRELOAD=p("swap.so"), SWAP_AT=str(k)))
    check(rc != 0 or read("out") in images, "a library replaced at open %d gives a mixture of both" % k)
''')

seed("c09-twice-the-same", "C09",
     "two objects that define one strong symbol at the same place of a section with the same index",
     "A definition that looks like the one before is taken for the same one, so that a symbol that is defined twice is accepted.",
     [("src/elf/symbol_table.rs", "                if old_sym.is_global()\n                    && new_sym.is_global()\n",
       "                // or the same one once more\n                let same = old_sym.st_shndx == new_sym.st_shndx\n                    && old_sym.st_value != 0\n                    && old_sym.st_value == new_sym.st_value\n                    && old_sym.st_size == new_sym.st_size;\n                if !same\n                    && old_sym.is_global()\n                    && new_sym.is_global()\n")],
     r'''
a = asm("a", ".globl _start\n_start:\n call f\n xor %edi,%edi\n" + EXIT)
b = asm("b", "nop\n.globl f\nf: mov $1,%eax\nret\n")
c = asm("c", "nop\n.globl f\nf: mov $2,%eax\nret\n")
check(dld("-o", "out", a, b)[0] == 0, "the link fails")
check(dld("-o", "out", a, b, c)[0] != 0, "two definitions of f are accepted")
''')

seed("c20-size-of-the-winner", "C20",
     "a weak definition of another size than the strong one that replaces it",
     "The size of a symbol stays that of the first definition.",
     [("src/elf/symbol_table.rs", "                    old_sym.st_value = new_sym.st_value;\n                    old_sym.st_size = new_sym.st_size;\n", "                    old_sym.st_value = new_sym.st_value;\n                    old_sym.st_size = old_sym.st_size.max(new_sym.st_size);\n")],
     r'''
a = asm("a", ".globl _start\n.weak f\n_start:\n call f\n xor %edi,%edi\n" + EXIT + "f: nop\nnop\nret\n.size f,3\n")
b = asm("b", ".globl f\nf: ret\n.size f,1\n")
for args in [(a, b), (b, a)]:
    check(dld("-o", "out", *args)[0] == 0, "the link fails")
    check(Elf().sym("f")["size"] == 1, "f has a size of %d" % Elf().sym("f")["size"])
''')

seed("c13-rounded-memory-size", "C13",
     "a segment with .bss after .data, and another segment behind it in the address space",
     "Addresses are assigned by the space the pieces take in the file: .bss overlaps what follows.",
     [("src/elf.rs", "                    self.p_vaddr += sh.sh_size;\n", "                    self.p_vaddr += sh.size_on_disk();\n")],
     r'''
a = asm("a", ".globl _start\n_start:\n xor %edi,%edi\n" + EXIT + ".data\n.long 1\n.bss\n.zero 9000\n.section .aw2,\"awx\",@progbits\n.long 3\n.section .tail,\"aw\",@nobits\n.zero 100\n")
check(dld("-o", "out", a)[0] == 0, "the link fails")
s = sorted((s["addr"], s["addr"] + s["size"], s["name"]) for s in Elf().sh if s["flags"] & 2 and s["size"])
for x, y in zip(s, s[1:]):
    check(x[1] <= y[0], "%s and %s overlap" % (x[2], y[2]))
for q in Elf().ph:
    check(q[0] != 1 or q[6] >= q[5], "a segment is larger in the file than in memory")
''')

seed("c22-trace-advances", "C22",
     "RUST_LOG at trace, with an output that has sections of 4 KiB and more",
     "What is logged about the place of a section also takes part in the computation of its padding.",
     [("src/elf.rs", "            log::trace!(\n                \"0x{:x}: ---- section {} {:?} ----\",\n                offset,\n",
       "            let pages = section.read().size_on_disk() as usize >> 12;\n            let mut place = || {\n                // pages are done with at once\n                offset += pages << 12;\n                offset - (pages << 12)\n            };\n            log::trace!(\n                \"0x{:x}: ---- section {} {:?} ----\",\n                place(),\n")],
     r'''
a = asm("a", ".globl _start\n_start:\n xor %edi,%edi\n" + EXIT + ".data\n.fill 5000,1,3\n.section .more,\"aw\"\n.balign 64\n.fill 9000,1,4\n.section .rodata,\"a\"\n.fill 9000,1,4\n")
check(dld("-o", "out", a)[0] == 0, "the link fails")
x = read("out")
rc, err = dld("-o", "out", a, env=dict(RUST_LOG="trace"))
check(rc == 0 and read("out") == x, "logging changes the link")
''')
