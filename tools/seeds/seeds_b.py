SEEDS = []


def seed(id, property, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


seed("c26-shared-scratch", "C26",
     "two links into one directory at the same time, one of which assembles its image while the other one does as well",
     "The image is assembled in a scratch file of a fixed name next to the output and copied when it is complete, so that links into one directory that overlap mix their images.",
     [("src/elf.rs", "    num_reserved: usize,\n", "    num_reserved: usize,\n    scratch: std::path::PathBuf,\n"),
      ("src/elf.rs", "            num_reserved: sections.len(),\n", "            num_reserved: sections.len(),\n            scratch: options.output.with_file_name(\".dld.part\"),\n"),
      ("src/elf.rs", "    pub fn write_to_disk(mut self) {\n        let mut offset = 0;\n",
       "    pub fn write_to_disk(mut self) {\n        let mut offset = 0;\n        // assemble the image next to the output and copy it when it's complete\n        let scratch = self.scratch;\n        let image = OpenOptions::new().read(true).write(true).create(true).truncate(true).open(&scratch);\n        let mut output = std::mem::replace(&mut self.out, image.unwrap());\n"),
      ("src/elf.rs", "        let mut perm = self.out.metadata().unwrap().permissions();\n",
       "        std::io::copy(&mut File::open(&scratch).unwrap(), &mut output).unwrap();\n        let _ = std::fs::remove_file(&scratch);\n        let mut perm = output.metadata().unwrap().permissions();\n"),
      ("src/elf.rs", "        self.out.set_permissions(perm).unwrap();\n    }", "        output.set_permissions(perm).unwrap();\n    }"),
      ], r'''
import time
PAUSE = r"""
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <fcntl.h>
#include <unistd.h>
static long count;
ssize_t write(int fd, const void *b, size_t n) {
  static ssize_t (*real)(int, const void *, size_t);
  if (!real) real = dlsym(RTLD_NEXT, "write");
  if (fd > 2 && getenv("PAUSE_AT") && count++ == atol(getenv("PAUSE_AT"))) {
    close(open("paused", O_CREAT | O_WRONLY, 0600));
    for (int i = 0; i < 500 && access("go", F_OK); i++) usleep(20000);
  }
  return real(fd, b, n);
}
"""
tool("gcc", "-shared", "-fPIC", "-o", p("pause.so"), write("pause.c", PAUSE), "-ldl")
P = """
.globl _start
.text
_start:
  mov $%d, %%edi
""" + EXIT.replace("%", "%%") + """
.section .rodata
.fill 700, 1, %d
"""
a = asm("a", P % (1, 65))
b = asm("b", P % (2, 66) + ".section .data\n.fill 3000,1,67\n")
check(dld("-o", "out_a", a)[0] == 0 and dld("-o", "out_b", b)[0] == 0, "a link fails")
alone = read("out_a"), read("out_b")
for k in [0, 5, 30, 100]:
    for f in ["paused", "go", "out_a", "out_b"]:
        if os.path.exists(p(f)):
            os.unlink(p(f))
    e = dict(os.environ, LD_PRELOAD=p("pause.so"), PAUSE_AT=str(k))
    one = subprocess.Popen([DLD, "-o", "out_a", a], cwd=W, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    for _ in range(500):
        if os.path.exists(p("paused")) or one.poll() is not None:
            break
        time.sleep(0.02)
    rc, err = dld("-o", "out_b", b)
    write("go", "")
    check(one.wait() == 0 and rc == 0, "a link fails next to another one")
    check((read("out_a"), read("out_b")) == alone, "links that overlap give other images")
''')

seed("c25-archives-read-again", "C25",
     "an archive is replaced by a new version while a link is going on that needs members of it in several rounds",
     "The archives are read again in every round, so that one that is replaced in between contributes members of both versions to a link that succeeds.",
     [("src/lib.rs", "            let path = ar.as_path();\n            let ar = Archive::parse(data).map_path_err(path)?;\n            let index = archive_index(data).map_path_err(path)?;\n            for entry in &mut undefines {",
       "            let path = ar.as_path();\n            // nobody needs what an earlier round has read any longer\n            let fresh = if extracted.is_empty() { data.clone() } else { read(path).map_path_err(path)? };\n            let data = &fresh;\n            let ar = Archive::parse(data).map_path_err(path)?;\n            let index = archive_index(data).map_path_err(path)?;\n            for entry in undefines.iter_mut() {"),
      ], r'''
SWAP = r"""
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static int count;
static void seen(const char *path) {
  const char *e = strrchr(path, '/');
  if (getenv("SWAP_AT") && !strcmp(e ? e + 1 : path, "libm.a") && count++ == atoi(getenv("SWAP_AT"))) rename("new.a", "libm.a");
}
int open64(const char *path, int flags, ...) {
  static int (*real)(const char *, int, ...);
  va_list l; va_start(l, flags); int mode = va_arg(l, int); va_end(l);
  if (!real) real = dlsym(RTLD_NEXT, "open64");
  seen(path);
  return real(path, flags, mode);
}
int open(const char *path, int flags, ...) {
  static int (*real)(const char *, int, ...);
  va_list l; va_start(l, flags); int mode = va_arg(l, int); va_end(l);
  if (!real) real = dlsym(RTLD_NEXT, "open");
  seen(path);
  return real(path, flags, mode);
}
"""
tool("gcc", "-shared", "-fPIC", "-o", p("swap.so"), write("swap.c", SWAP), "-ldl")
main = asm("main", ".globl _start\n_start: call one\n" + EXIT)
def version(v, name):
    ms = []
    for i, n in enumerate(["one", "two", "three"]):
        nxt = ["two", "three", None][i]
        ms.append(asm(n, ".globl %s\n%s: %s\nret\n.section .rodata\n.ascii \"%s of version %d\"\n" % (n, n, "call " + nxt if nxt else "nop", n, v)))
    return ar(name, *ms)
images = []
for v in [1, 2]:
    version(v, "libm.a")
    check(dld("-o", "out", main, "libm.a")[0] == 0, "a link fails")
    images.append(read("out"))
for k in range(8):
    version(2, "new.a")
    version(1, "libm.a")
    rc, err = dld("-o", "out", main, "libm.a", env=dict(LD_PRELOAD=p("swap.so"), SWAP_AT=str(k)))
    check(rc != 0 or read("out") in images, "an archive replaced at open %d gives a mixture of both" % k)
''')

seed("c27-group-ends-as-needed", "C27",
     "an input after --end-group, with --as-needed before the group",
     "--end-group switches back to --no-as-needed.",
     [("src/main.rs", "            \"--start-group\" | \"--end-group\" => {\n                continue;\n            }",
       "            \"--start-group\" => {\n                continue;\n            }\n            \"--end-group\" => {\n                // what follows isn't part of the group any longer\n                app.as_needed = false;\n                continue;\n            }")],
     r'''
a = asm("a", ".globl _start\n_start:\n" + EXIT)
so("libx.so", ".globl x\n.type x,@function\nx: ret\n")
check(dld("-o", "out", "--as-needed", "--start-group", a, "--end-group", p("libx.so"))[0] == 0, "the link fails")
def needed():
    e = Elf()
    o = e.sec(".dynstr")["off"]
    return [e.d[o + v:e.d.index(b"\0", o + v)] for t, v in e.dyn() if t == 1]
check(b"libx.so" not in needed(), "a library that is not needed is in DT_NEEDED")
''')

seed("c27-first-style-wins", "C27",
     "--hash-style given twice",
     "Of several --hash-style=STYLE options the first one that differs from the default counts, not the last one.",
     [("src/main.rs", "            app.opts.hash_style = HashStyle::from_str(arg)?;\n        } else {",
       "            let style = HashStyle::from_str(arg)?;\n            if matches!(app.opts.hash_style, HashStyle::Both) {\n                app.opts.hash_style = style;\n            }\n        } else {")],
     r'''
a = asm("a", ".globl _start\n_start:\n" + EXIT)
for s in ["sysv", "gnu", "both"]:
    for t in ["sysv", "gnu", "both"]:
        check(dld("-o", "one", "--hash-style=" + t, a)[0] == 0, "the link fails")
        check(dld("-o", "two", "--hash-style=" + s, "--hash-style=" + t, a)[0] == 0, "the link fails")
        check(read("one") == read("two"), "--hash-style=%s --hash-style=%s is not the same as the latter alone" % (s, t))
''')

seed("c09-only-some-names", "C09",
     "more than eight undefined symbols",
     "The message about undefined symbols names the first eight only.",
     [("src/lib.rs", "                .filter_map(|u| writer.symbol_name(*u).map(|s| s.to_string()))\n                .collect::<Vec<_>>();\n            return",
       "                // nobody reads more than a few\n                .take(8)\n                .filter_map(|u| Some(writer.symbol_name(*u)?.to_string()))\n                .collect::<Vec<_>>();\n            return")],
     r'''
for n in [1, 5, 8, 9, 20]:
    a = asm("a", ".globl _start\n_start:\n" + "".join("call missing_%d_x\n" % i for i in range(n)) + EXIT)
    rc, err = dld("-o", "out", a)
    check(rc != 0, "success reported with undefined symbols")
    for i in range(n):
        check("missing_%d_x" % i in err, "missing_%d_x is not named" % i)
''')

seed("c10-same-count-stops", "C10",
     "a round of members that needs as many new symbols as it defines, which only a further round can supply",
     "The search for members ends when a round leaves as many symbols undefined as before, even though they are other ones.",
     [("src/lib.rs", "            if undefined.len() == undefined_next.len() {\n                break;\n            } else {\n                undefined = writer.undefined_symbols();\n            }",
       "            let left = writer.undefined_symbols();\n            let done = undefined.len() == undefined_next.len() || undefined.len() == left.len() && undefined.len() > 2;\n            undefined = left;\n            if done {\n                break;\n            }")],
     r'''
main = asm("main", ".globl _start\n_start: call a1\ncall b1\ncall c1\n" + EXIT)
ms = []
for x in "abc":
    for i in [1, 2, 3]:
        ms.append(asm("%s%d" % (x, i), ".globl %s%d\n%s%d: %s\nret\n" % (x, i, x, i, "call %s%d" % (x, i + 1) if i < 3 else "nop")))
ar("libz.a", *ms)
rc, err = dld("-o", "out", main, "libz.a")
check(rc == 0, "members are not found: " + err)
''')

seed("c22-sorted-for-the-log", "C22",
     "RUST_LOG=debug and two symbols whose members come in another order when sorted by name",
     "With debug logging the undefined symbols are sorted by name for the log, which changes the order in which archive members are linked.",
     [("src/lib.rs", "        let mut undefined = writer.undefined_symbols();\n        let mut extracted",
       "        let mut undefined = {\n            let mut undefined = writer.undefined_symbols();\n            if log::log_enabled!(log::Level::Debug) {\n                undefined.sort_by_cached_key(|u| writer.symbol_name(*u).map(|s| s.to_string()));\n                log::debug!(\"Undefined: {:?}\", undefined);\n            }\n            undefined\n        };\n        let mut extracted")],
     r'''
main = asm("main", ".globl _start\n_start: call zeta\ncall alpha\n" + EXIT)
ar("libz.a", *[asm(n, ".globl %s\n%s: ret\n.section .rodata\n.ascii \"%s\"\n" % (n, n, n)) for n in ["zeta", "alpha"]])
images = []
for level in [None, "error", "info", "debug", "trace"]:
    rc, err = dld("-o", "out", main, "libz.a", env={} if level is None else {"RUST_LOG": level})
    check(rc == 0, "the link fails")
    images.append(read("out"))
check(all(i == images[0] for i in images), "the image depends on the log level")
''')

seed("c23-sparse-padding", "C23",
     "an output file that exists already and holds something else than zeroes where the new image has padding between sections",
     "Padding is skipped rather than written, and the old output is only cut to size at the end, so that bytes of the old file stay in the gaps.",
     [("src/elf.rs", "                self.out\n                    .write_all(&std::iter::repeat(0).take(sh_offset - offset).collect::<Vec<u8>>())\n                    .unwrap();\n",
       "                let gap = (sh_offset - offset) as i64;\n                std::io::Seek::seek(&mut self.out, std::io::SeekFrom::Current(gap)).unwrap();\n"),
      ("src/elf.rs", "            out.set_len(0)?;\n", ""),
      ("src/elf.rs", "        let mut perm = self.out.metadata().unwrap().permissions();\n",
       "        self.out.set_len(offset as u64).unwrap();\n        let mut perm = self.out.metadata().unwrap().permissions();\n")],
     r'''
P = ".globl _start\n.text\n_start:\n" + EXIT.replace("%", "%%") + ".section .rodata\n.balign 64\n.fill %d, 1, 0x41\n.data\n.balign 32\n.quad 1\n"
a = asm("a", P % 5)
b = asm("b", P % 9000)
check(dld("-o", "fresh", a)[0] == 0, "the link fails")
check(dld("-o", "out", b)[0] == 0 and dld("-o", "out", a)[0] == 0, "the link fails")
check(read("out") == read("fresh"), "the image depends on the file that it replaces")
''')

seed("c17-xor-buckets", "C17",
     "a GNU hash table with a number of buckets that is no power of two (17 to 24 dynamic symbols, say)",
     "Neighbours are in the same bucket if the exclusive or of their hashes is a multiple of the number of buckets, which ends chains too early, or too late.",
     [("src/elf/symbol_table.rs", "                || sym.gnu_hash() % nbuckets != symbols[i + 1].gnu_hash() % nbuckets\n",
       "                || (sym.gnu_hash() ^ symbols[i + 1].gnu_hash()) % nbuckets != 0\n")],
     r'''
n = 22
so("libx.so", "".join(".globl fn_%d\n.type fn_%d,@function\nfn_%d: ret\n" % (i, i, i) for i in range(n)))
a = asm("a", ".globl _start\n_start:\n" + "".join("call fn_%d@PLT\n" % i for i in range(n)) + EXIT)
check(dld("-o", "out", "--hash-style=gnu", a, p("libx.so"))[0] == 0, "the link fails")
e = Elf()
t = dict(e.dyn())[0x6ffffef5]
nb, first, bloom, shift = struct.unpack("<4I", e.at(t, 16))
buckets = struct.unpack("<%dI" % nb, e.at(t + 16 + 8 * bloom, 4 * nb))
chains = t + 16 + 8 * bloom + 4 * nb
def gnu(name):
    h = 5381
    for c in name.encode():
        h = (h * 33 + c) & 0xffffffff
    return h
for i in range(n):
    h = gnu("fn_%d" % i)
    k = buckets[h % nb]
    found = False
    while k:
        (c,) = struct.unpack("<I", e.at(chains + 4 * (k - first), 4))
        if c | 1 == h | 1:
            found = True
        if c & 1:
            break
        k += 1
    check(found, "fn_%d cannot be found" % i)
''')

seed("c11-script-names-nothing-new", "C11",
     "a script within a script that follows --as-needed, or an input that was given before with another spelling",
     "A name that was searched for before is not searched for again, so that a library given again without --as-needed is left out.",
     [("src/main.rs", "    for (lib, as_needed) in args.inputs.drain(..) {\n        let mut found = None;\n",
       "    let mut looked_up = std::collections::HashSet::new();\n    // what has been found once needn't be looked for again\n    let inputs = args.inputs.drain(..).filter(|(lib, _)| looked_up.insert(lib.clone()));\n    for (lib, as_needed) in inputs {\n        let mut found = None;\n")],
     r'''
a = asm("a", ".globl _start\n_start:\n" + EXIT)
so("libx.so", ".globl x\n.type x,@function\nx: ret\n")
check(dld("-o", "out", a, "--as-needed", "-lx", "--no-as-needed", "-lx", "-L" + W)[0] == 0, "the link fails")
def needed():
    e = Elf()
    o = e.sec(".dynstr")["off"]
    return [e.d[o + v:e.d.index(b"\0", o + v)] for t, v in e.dyn() if t == 1]
check(b"libx.so" in needed(), "a library given without --as-needed is not in DT_NEEDED")
''')

seed("c19-bracket-in-memory-order", "C19",
     "an object without constructors that refers to __fini_array_end while the destructors come from several objects",
     "The end of an array is taken from its first contribution.",
     [("src/elf.rs", "            } else if is_some_with(section_names.sh_name(\".fini_array\"), &section.sh_name) {\n                [(\"__fini_array_start\", 0), (\"__fini_array_end\", section.size_on_disk())]",
       "            } else if section_names.sh_name(\".fini_array\").map_or(false, |n| n == section.sh_name) {\n                let end = section.chunks().iter().map(|c| c.size()).max().unwrap_or(0);\n                [(\"__fini_array_start\", 0), (\"__fini_array_end\", end)]")],
     r'''
main = asm("main", ".globl _start\n_start:\nlea __fini_array_start(%rip),%rsi\nlea __fini_array_end(%rip),%rdi\n" + EXIT + ".section .rodata\n.quad 0x1122334455667788, __fini_array_start, __fini_array_end\n")
fs = [asm("f%d" % i, ".section .fini_array,\"aw\"\n" + ".quad f\n" * i + ".text\nf: ret\n") for i in [1, 2]]
for objs in [[fs[0]], fs]:
    check(dld("-o", "out", main, *objs)[0] == 0, "the link fails")
    d = read("out")
    o = d.index(struct.pack("<Q", 0x1122334455667788))
    a, b = struct.unpack_from("<QQ", d, o + 8)
    check(b - a == 8 * sum([1, 2][:len(objs)]), "the brackets are %d bytes apart" % (b - a))
''')

seed("c24-slots-shared", "C24",
     "one thread-local variable that is accessed with the general dynamic model and with the initial exec model",
     "An access with the initial exec model uses the first of the two slots of the general dynamic model if there are any, so that it reads the module's number instead of the offset.",
     [("src/elf.rs", "                            if sym.got_offset().is_none() {\n                                sym.set_got_offset(self.got_len * size_of::<u64>());\n",
       "                            if let Some(slots) = sym.tls_index_offset().filter(|_| sym.got_offset().is_none()) {\n                                // the symbol has slots already\n                                sym.set_got_offset(slots);\n                            } else if sym.got_offset().is_none() {\n                                sym.set_got_offset(self.got_len * size_of::<u64>());\n")],
     r'''
main = asm("main", """
.globl _start, tv
.text
_start:
  .byte 0x66
  lea tv@tlsgd(%rip), %rdi
  .word 0x6666
  rex64
  nop
here:
  mov tv@gottpoff(%rip), %rax
""" + EXIT + """
.globl here
.section .tdata,"awT"
.quad 7
tv: .quad 5
""")
check(dld("-o", "out", main)[0] == 0, "the link fails")
e = Elf()
at = e.sym("here")["value"]
(d,) = struct.unpack("<i", e.at(at + 3, 4))
tls = [h for h in e.ph if h[0] == 7][0]
(slot,) = struct.unpack("<q", e.at(at + 7 + d, 8))
check(slot == 8 - (tls[6] + tls[7] - 1) // tls[7] * tls[7], "the slot holds %d" % slot)
''')

seed("c13-header-size-in-bytes", "C13",
     "an image with more than nine program headers",
     "The size of the program header table that PT_PHDR gives is that of nine headers at most.",
     [("src/elf.rs", "        ph.p_memsz = (self.eh.e_phnum * self.eh.e_phentsize) as u64;",
       "        ph.p_memsz = (self.eh.e_phnum * self.eh.e_phentsize).min(9 * 56) as u64;")],
     r'''
for extra in [0, 3, 9]:
    kinds = ["a", "aw", "ax", "awx", "aM", "awM", "axM", "aS", "awS"][:extra]
    a = asm("a", ".globl _start\n.text\n_start:\n" + EXIT + "".join(".section .k%d,\"%s\",@progbits%s\n.quad %d\n" % (i, k, ",8" if "M" in k else "", i) for i, k in enumerate(kinds)))
    check(dld("-o", "out", a)[0] == 0, "the link fails")
    e = Elf()
    ph = [h for h in e.ph if h[0] == 6][0]
    check(ph[5] == ph[6] == 56 * len(e.ph), "PT_PHDR has %d bytes for %d headers" % (ph[6], len(e.ph)))
''')
