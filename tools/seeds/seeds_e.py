SEEDS = []


def seed(id, prop, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo))


seed("c04-creates-directories", "C04",
     "an output in a directory that doesn't exist, as after a typing error in -o",
     "The directories of the output are created if they aren't there, and stay when the link fails or the name was wrong.",
     [("src/lib.rs", """        let mut writer =
            elf::Writer::new(&self.options).map_path_err(self.options.output.as_path())?;
""", """        let output = self.options.output.as_path();
        if let Some(dir) = output.parent() {
            std::fs::create_dir_all(dir).map_path_err(output)?;
        }
        let mut writer = elf::Writer::new(&self.options).map_path_err(output)?;
""")], r'''
import os
a = asm("a", ".globl _start\n_start:\n xor %edi,%edi\n" + EXIT)
before = set(os.listdir(W))
dld("-o", "no/where/out", a)
check(set(os.listdir(W)) == before, "new: %s" % (set(os.listdir(W)) - before))
''')

seed("c11-text-archive", "C11",
     "a library given as libNAME.a that is a linker script, as the C library's libm.a is",
     "What is called like an archive is taken for one, whatever it contains.",
     [("src/main.rs", "    if header.starts_with(goblin::archive::MAGIC) {\n",
       "    let archive = input.extension().map_or(false, |e| e == \"a\");\n    if archive || header.starts_with(goblin::archive::MAGIC) {\n")], r'''
a = asm("a", ".globl _start\n_start:\n call f\n xor %edi,%edi\n" + EXIT)
f = asm("f", ".globl f\nf: ret\n")
ar("libreal.a", f)
write("libm.a", ("/* GNU ld script */\nGROUP ( %s )\n" % p("libreal.a")).encode())
check(dld("-o", "out", a, "-L.", "-lm")[0] == 0, "the link fails")
''')

seed("c24-relaxed-high-register", "C24",
     "an initial exec access to a variable of the program that loads its offset into one of the registers %r8 to %r15",
     "The load is replaced by one of a constant, but with the wrong bit of the prefix for the high registers, so that the constant goes to a low one.",
     [("src/elf/chunk.rs", """            assert!(symbol.is_tls());
            let got_offset = symbol.got_offset().unwrap();
            let value = got_offset as i64 + got + a - p;
""", """            assert!(symbol.is_tls());
            let buf = &mut data[offset.saturating_sub(3)..];
            if symbol.dynamic().is_none() && offset >= 3 {
                if let [0x48 | 0x4c, 0x8b, modrm] = buf[..3] {
                    // mov foo@GOTTPOFF(%rip),%reg -> mov $foo@TPOFF,%reg
                    let value = s + a + 4 - tls_size as i64;
                    buf[1] = 0xc7;
                    buf[2] = 0xc0 | (modrm >> 3 & 7);
                    buf[3..].as_mut().write_i32::<LittleEndian>(value.try_into().unwrap()).unwrap();
                    return;
                }
            }
            let slot = got + symbol.got_offset().unwrap() as i64;
            let value = slot + a - p;
""")], r'''
a = asm("a", """.globl _start
_start:
 mov $0x5,%ebx
 mov x@GOTTPOFF(%rip),%r11
 mov %fs:(%r11),%edi
""" + EXIT + """.section .tdata,"awT",@progbits
y: .quad 3
x: .quad 7
""")
check(link("-o", "out", a)[0] == 0, "the link fails")
r = execute()
check(r == 7, "the program ends with %s" % r)
''')

seed("c02-interrupted-starts-over", "C02",
     "a write of the output that takes only a part, and the next one is interrupted by a signal",
     "After an interrupted write a piece is written from its beginning again, also what an earlier write took of it.",
     [("src/elf.rs", """            for chunk in section.chunks() {
                self.out.write_all(chunk).unwrap();
            }
""", """            for chunk in section.chunks() {
                let mut rest = &chunk[..];
                while !rest.is_empty() {
                    match self.out.write(rest) {
                        Ok(0) => panic!("failed to write section {}", i),
                        Ok(n) => rest = &rest[n..],
                        // try again
                        Err(e) if e.kind() == std::io::ErrorKind::Interrupted => rest = &chunk[..],
                        Err(e) => panic!("failed to write section {}: {}", i, e),
                    }
                }
            }
""")], r'''
SIGNAL = r"""
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <unistd.h>
static int state;
ssize_t write(int fd, const void *b, size_t n) {
  static ssize_t (*real)(int, const void *, size_t);
  if (!real) real = dlsym(RTLD_NEXT, "write");
  if (fd <= 2) return real(fd, b, n);
  if (state == 0 && n >= 800 && *(const unsigned long *)b == 0x1122334455667788) { state = 1; return real(fd, b, 33); }
  if (state == 1) { state = 2; errno = EINTR; return -1; }
  return real(fd, b, n);
}
"""
tool("gcc", "-shared", "-fPIC", "-O1", "-o", p("signal.so"), write("signal.c", SIGNAL.encode()), "-ldl")
a = asm("a", ".globl _start\n_start:\n xor %edi,%edi\n" + EXIT + ".data\n.rept 100\n.quad 0x1122334455667788\n.endr\n")
check(dld("-o", "o1", a)[0] == 0, "the link fails")
check(dld("-o", "o2", a, env={"LD_PRELOAD": p("signal.so")})[0] == 0, "the link fails when it is interrupted")
check(read("o1") == read("o2"), "the outputs differ")
''')

seed("c27-build-id-eats-option", "C27",
     "--build-id without a style right before an option with a single dash",
     "An option that follows --build-id is taken for its style, unless it has two dashes.",
     [("src/main.rs", "                    if !arg.starts_with(\"--\") && !arg.starts_with('-') {\n",
       "                    if !arg.starts_with(\"--\") {\n")], r'''
a = asm("a", ".globl _start\n_start:\n xor %edi,%edi\n" + EXIT)
check(dld("--build-id", "-o", "out", a)[0] == 0, "the link fails")
''')

seed("c20-section-of-section-symbols", "C20",
     "an output whose sections are in another order than those of the objects, read by something that looks at the sections of symbols",
     "Only the section symbols get the index of the section in the output: all the others keep that of the object they come from.",
     [("src/elf/section.rs", """                    symbol.st_shndx = sh_index;
                    if matches!(symbol_ref, SymbolRef::Section(..)) {
                        symbol.st_value = base_addr;
                    } else {
""", """                    if matches!(symbol_ref, SymbolRef::Section(..)) {
                        symbol.st_shndx = sh_index;
                        symbol.st_value = base_addr;
                    } else {
""")], r'''
a = asm("a", ".globl _start\n_start:\n xor %edi,%edi\n" + EXIT + ".data\n.globl d\nd: .quad 1\n.bss\n.globl b\nb: .zero 8\n")
check(dld("-o", "out", a)[0] == 0, "the link fails")
e = Elf()
for n, s in [("_start", ".text"), ("d", ".data"), ("b", ".bss")]:
    y, sec = e.sym(n), e.sec(s)
    check(e.sh[y["shndx"]]["name"] == s, "%s is in section %d" % (n, y["shndx"]))
''')
