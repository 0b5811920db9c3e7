SEEDS = []


def seed(id, property, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


seed("c27-two-word-library", "C27",
     "--as-needed and a library named by -l and its name as two words, which supplies nothing",
     "A library named as in '-l foo' is always recorded as needed.",
     [("src/main.rs", "                app.inputs.push((path.into(), app.as_needed));\n", "                app.inputs.push((path.into(), false));\n")],
     r'''
so("libx.so", ".globl x\n.type x,@function\nx: ret\n")
so("liby.so", ".globl y\n.type y,@function\ny: ret\n")
a = asm("a", ".globl _start\n_start:\n call y\n xor %edi,%edi\n" + EXIT)
for args in [("-lx", "-ly"), ("-l", "x", "-ly"), ("-l", "x", "-l", "y"), ("-lx", "-l", "y")]:
    check(dld("-o", "out", a, "-L", ".", "--as-needed", *args)[0] == 0, "the link fails")
    e = Elf()
    strs = e.sec(".dynstr")
    needed = [e.cstr(strs["off"] + v) for t, v in e.dyn() if t == 1]
    check("libx.so" not in needed and "liby.so" in needed, "%s: needed are %s" % (" ".join(args), needed))
''')

seed("c11-dotted-name", "C11",
     "-l with a library name that has a dot in it, like glib-2.0",
     "What follows the last dot of the name is dropped, so that another library is taken or none is found.",
     [("src/main.rs", "                let input = dir.join(format!(\"lib{}.{}\", lib.display(), kind));\n", "                let input = dir.join(\"lib\").with_file_name(format!(\"lib{}\", lib.display())).with_extension(kind);\n")],
     r'''
so("libx.so", ".globl x\n.type x,@function\nx: ret\n", "wrong.so")
so("libx-2.0.so", ".globl x\n.type x,@function\nx: ret\n", "right.so")
a = asm("a", ".globl _start\n_start:\n call x\n xor %edi,%edi\n" + EXIT)
check(dld("-o", "out", a, "-L.", "-lx-2.0")[0] == 0, "the link fails")
e = Elf()
needed = [e.cstr(e.sec(".dynstr")["off"] + v) for t, v in e.dyn() if t == 1]
check("right.so" in needed and "wrong.so" not in needed, "needed are %s" % needed)
''')

seed("c16-whole-words", "C16",
     "an imported object whose size is no multiple of eight as the last one that is copied",
     "The section for the copies is as large as the whole words in it: the end of the last object lies outside of it.",
     [("src/elf/copy_rel.rs", "        sh.sh_size = self.size as u64;\n", "        sh.sh_size = self.size & !(std::mem::size_of::<u64>() as u64 - 1);\n")],
     r'''
so("libx.so", ".globl x\n.type x,@object\n.size x,4099\n.data\nx: .fill 4099,1,7\n")
a = asm("a", ".globl _start\n_start:\n movzbl x+4098(%rip),%edi\n" + EXIT)
check(dld("-o", "out", a, "-L.", "-lx")[0] == 0, "the link fails")
e = Elf()
s = e.sec(".copyrel")
if s:
    check(s["size"] >= 4099, "the section for the copy has %d bytes" % s["size"])
x = next(y for y in e.syms(".dynsym") if y["name"] == "x")
check(any(q[0] == 1 and q[3] <= x["value"] and x["value"] + 4099 <= q[3] + q[6] for q in e.ph), "the copy isn't loaded")
''')

seed("c18-name-of-a-symbol", "C18",
     "a library whose SONAME is also the name of a symbol that is imported",
     "Whether a library has been recorded already is told by whether its name is in .dynstr already, which names of symbols are as well.",
     [("src/elf.rs", """            .get_or_create(so_name.to_string());
        let offset = entry.offset as u64;
        let is_needed =
            |(tag, value): &(DynTag, u64)| matches!(tag, DynTag::Needed) && *value == offset;
        if !self.dyn_entries.iter().any(is_needed) {
            self.dyn_entries.push((DynTag::Needed, offset));
        }
""", """            .get_or_create(so_name.to_owned());
        // not if it has been added before
        if entry.new {
            self.dyn_entries.push((DynTag::Needed, entry.offset as u64));
        }
""")],
     r'''
so("libx.so", ".globl engine\n.type engine,@function\nengine: ret\n", "engine")
a = asm("a", ".globl _start\n_start:\n call engine\n xor %edi,%edi\n" + EXIT)
check(dld("-o", "out", a, "-L.", "-lx")[0] == 0, "the link fails")
e = Elf()
needed = [e.cstr(e.sec(".dynstr")["off"] + v) for t, v in e.dyn() if t == 1]
check("engine" in needed, "needed are %s" % needed)
''')

seed("c14-pc32-wraps", "C14",
     "a PC-relative reference to an absolute symbol more than 2 GiB away",
     "A displacement that doesn't fit its field is cut off instead of making the link fail.",
     [("src/elf/chunk.rs", "            .write_i32::<LittleEndian>((s + a - p).try_into().unwrap())\n            .unwrap(),\n", "            .write_i32::<LittleEndian>((s + a - p) as i32)\n            .unwrap(),\n")],
     r'''
a = asm("a", ".globl _start\n_start:\n lea far(%rip),%rax\n xor %edi,%edi\n" + EXIT)
b = asm("b", ".globl far\nfar = 0x123456789a\n")
check(dld("-o", "out", a, b)[0] != 0, "a displacement that doesn't fit is accepted")
c = asm("c", ".globl far\nfar = 0x123456\n")
check(dld("-o", "out", a, c)[0] == 0, "a displacement that fits is refused")
''')

seed("c07-weak-not-imported", "C07",
     "a weak reference to a function or object of a shared library, which nothing refers to strongly",
     "Only strong references are looked up in the libraries: weak ones resolve to zero although there is a definition.",
     [("src/elf.rs", "                && (sym.is_global() || sym.is_weak())\n                && sym.dynamic().is_none()\n", "                && sym.is_global()\n                && sym.dynamic().is_none()\n")],
     r'''
so("libx.so", ".globl x\n.type x,@function\nx: mov $5,%eax\nret\n")
a = asm("a", ".globl _start\n.weak x\n_start:\n call x\n mov %eax,%edi\n" + EXIT)
check(dld("-o", "out", a, "-L.", "-lx")[0] == 0, "the link fails")
check("x" in [y["name"] for y in Elf().syms(".dynsym")], "the library's definition isn't used")
''')

seed("c13-aligned-segments", "C13",
     "a section that is aligned to more than a page and isn't the first one of the file",
     "Segments claim the alignment of their first section, but their place in the file is only aligned to a page: offset and address don't agree modulo that alignment, and loaders may refuse such a file.",
     [("src/elf.rs", "            p_align: PAGE_ALIGNMENT,\n", "            p_align: max(PAGE_ALIGNMENT, sh.sh_addralign),\n")],
     r'''
a = asm("a", ".globl _start\n_start:\n xor %edi,%edi\n" + EXIT + ".section .rodata,\"a\"\n.fill 5000,1,3\n.data\n.balign 0x4000\nx: .long 5\n")
check(dld("-o", "out", a)[0] == 0, "the link fails")
for q in Elf().ph:
    if q[0] == 1 and q[7] > 1:
        check(q[2] % q[7] == q[3] % q[7], "offset %#x and address %#x disagree modulo %#x" % (q[2], q[3], q[7]))
''')

seed("c20-locals-by-name", "C20",
     "two objects with local symbols of one name",
     "Local symbols are counted once per name, so that the symbol table says that the globals begin earlier than they do.",
     [("src/elf/symbol_table.rs", "    pub fn num_locals(&self) -> usize {\n        self.num_locals\n", "    pub fn num_locals(&self) -> usize {\n        let names: std::collections::HashSet<u32> = self.locals.iter().map(|s| s.st_name).collect();\n        self.num_locals + names.len() - self.locals.len()\n")],
     r'''
a = asm("a", ".globl _start\n_start:\n call f\n xor %edi,%edi\n" + EXIT + "tmp: ret\n")
b = asm("b", ".globl f\nf: ret\ntmp: ret\n")
check(dld("-o", "out", a, b)[0] == 0, "the link fails")
e = Elf()
n = e.sec(".symtab")["info"]
syms = e.syms()
first = next(i for i, y in enumerate(syms) if y["bind"] != 0)
check(n == first, "sh_info is %d, the first global symbol has index %d" % (n, first))
''')
