#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts live here so they are easy to edit)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))
TESTS="The suite links two tiny C programs once each with a healthy disk and looks at exit codes; the other tests parse scripts and build one hash table."

p("C01","A reported success means the complete executable is on disk",
  "If a link exits with status 0, the file at the output path holds every byte of the linked image and has mode 0755. Whenever opening, reading or writing a file, setting the permissions, or allocating memory fails at any point, the link either recovers and still delivers exactly that image, or exits with a non-zero status and says something on standard error.",
  ["fault_sequences","inputs","schedules"],"every single fault and every sequence of faults (open, read, write, permission-change and allocation failures, disk full after any byte count, input files vanishing between look-up and use) placed at any system call of a link, for every set of inputs and every hash-map iteration order",
  TESTS+" No test ever makes an I/O call fail.",
  ["src/elf.rs","src/lib.rs","src/serialize.rs","src/main.rs"],
  [("Writer::write_to_disk unwraps every write and the final set_permissions","src/elf.rs"),("Serialize impls unwrap every write","src/serialize.rs"),("read(..).map_path_err turns read errors into link errors","src/lib.rs"),("main returns Err => exit status 1","src/main.rs")],
  ["exit status, stderr, bytes and mode of the output file in the simulated file system"])
p("C02","Partial and interrupted transfers are invisible",
  "A link whose reads and writes are delivered in arbitrarily small pieces, or are interrupted by signals and retried, succeeds whenever the same link succeeds undisturbed. It then produces byte for byte the same output file.",
  ["fault_sequences","schedules","inputs"],"every split of every read and write into short transfers and every pattern of EINTR, for every set of inputs",
  TESTS+" A local disk never returns short transfers, so a bare write() in place of write_all() passes every test.",
  ["src/elf.rs","src/serialize.rs","src/lib.rs","src/main.rs"],
  [("write_all / read_to_end loops","src/elf.rs, src/serialize.rs, src/lib.rs"),("file_type uses read_exact for the 18 byte header","src/main.rs")],
  ["exit status and output bytes, compared with the undisturbed run"])
p("C03","A crashed or failed link never leaves a runnable partial output",
  "If a link is killed at any instant, or ends with a failure of any kind, then the file at the output path is not executable unless it is either the complete image of that link or the untouched file that was there before. This also holds when an executable from an earlier link was already present at the output path.",
  ["crash_points","fault_sequences","histories"],"every point between two system calls (and inside a write) at which the process can die, every failing link (unresolved symbols, bad inputs, I/O faults), with and without an older executable at the output path",
  TESTS+" They never kill the linker and remove the old output before linking.",
  ["src/elf.rs","src/lib.rs"],
  [("Writer::new creates the output before any input has been read","src/elf.rs"),("write_to_disk sets mode 0755 as its last action","src/elf.rs")],
  ["mode and bytes of the output path after the crash or failure"])
p("C04","A link changes nothing but its output file",
  "Whatever the outcome (success, failure or crash), every input file, library, script and unrelated file keeps its contents, permissions and name. When the link ends by itself, the only path that differs from before is the output path given with -o (or ./out when none is given). Other names of that file (hard links) keep what it held, and no directory is created for it: where the directory of the output does not exist the link fails.",
  ["fault_sequences","crash_points","inputs"],"every outcome of a link under every fault sequence and crash point, for every set of inputs and output locations",
  TESTS+" They never compare the rest of the file system before and after.",
  ["src/elf.rs","src/main.rs","src/lib.rs","src/elf/options.rs"],
  [("File::create on options.output only","src/elf.rs"),("inputs are opened read-only","src/lib.rs, src/main.rs"),("default output ./out","src/elf/options.rs")],
  ["the whole simulated file system after each run; the journal of mutating calls"])
p("C05","Linking is reproducible",
  "Linking the same input files with the same command line always ends with the same exit status and, on success, with byte-for-byte the same output file. The result does not depend on hash-map seeds, memory addresses, the clock, the process id or how file reads were split.",
  ["schedules","inputs","configurations"],"every pair of hash seeds, heap layouts, clock values, process ids and transfer splits, for every set of inputs",
  TESTS+" Each program is linked once and outputs are never compared; std's HashMap seeds differ on every run, so one run proves nothing.",
  ["src/lib.rs","src/elf.rs","src/elf/symbol_table.rs","src/elf/string_table.rs","src/main.rs"],
  [("order of undefined symbols, archive members and dynamic relocations","src/lib.rs, src/elf.rs"),("symbol table sorting","src/elf/symbol_table.rs"),("string table sorting by offset","src/elf/string_table.rs")],
  ["bytes of the output of runs that differ only in the simulated schedule"])
p("C06","Every link terminates",
  "For every command line, every content of the named files (including text files that are not valid linker scripts, scripts naming further scripts, empty and garbage files) and every pattern of I/O faults, the linker stops after a bounded amount of work. It never waits for a lock it holds itself and never rescans its inputs forever.",
  ["inputs","fault_sequences","schedules"],"all file contents, all argument lists, all fault sequences and all hash-map iteration orders; progress measured in simulated system calls, allocations and CPU time",
  TESTS+" Each uses inputs that finish; none feeds a text file which is not a GROUP script.",
  ["src/linker_script.rs","src/lib.rs","src/main.rs","src/elf.rs"],
  [("loop until leftover is empty","src/linker_script.rs parse"),("fix-point loop over libraries and archives","src/lib.rs link"),("script work-list","src/main.rs main"),("RwLock guards on sections","src/elf.rs")],
  ["end of the simulated process within the step bound"])
p("C07","Global references bind to the definition the ELF rules select",
  "In a successful link every reference to a global or weak name, from any input file and regardless of input order, resolves to one and the same definition: a strong definition in a linked object (a unique one counts as strong) wins over weak ones, among weak ones the first object on the command line wins, and a reference never displaces a definition. The address bound is exactly that definition's place in its own section, wherever in the section it is; an unresolved weak reference resolves to address zero. A common (tentative) definition yields to a strong definition and beats weak ones, and where no strong definition exists it gets one zeroed allocation of the largest size and alignment asked for (a thread-local one in thread-local storage). A symbol that claims to lie in a section its object does not have makes the link fail. Of the COMDAT section groups that have one signature only the first is linked; references to global symbols of the others bind to whatever is linked for that name, and local symbols of the others denote address zero.",
  ["inputs","schedules"],"all sets and orders of objects, archives and libraries, all mixes of strong, weak and undefined occurrences of each name, all offsets, and all hash-map iteration orders",
  TESTS+" Both programs have one function, at offset 0 of its section, and no weak or duplicated names.",
  ["src/elf/symbol_table.rs","src/elf.rs","src/symbol.rs","src/elf/section.rs"],
  [("SymbolTable::add_symbol merging rules","src/elf/symbol_table.rs"),("Symbol::higher_bind_than","src/symbol.rs"),("Section::patch_symbol_values","src/elf/section.rs")],
  ["values found in relocated fields of the image"])
p("C08","Local symbols stay private to their object file",
  "A reference made through a local symbol always resolves to that symbol of the same object file, even if other objects define local or global symbols with the same name. A local symbol never satisfies, replaces or conflicts with a global symbol of another object.",
  ["inputs","schedules"],"all sets of objects whose local names coincide with each other or with global names, in all orders",
  TESTS+" The linked programs share no local names that matter.",
  ["src/elf/symbol_table.rs","src/lib.rs","src/elf.rs"],
  [("symbols are keyed by name in the output symbol table","src/elf/symbol_table.rs"),("per-object map from input symbol to output symbol","src/lib.rs")],
  ["values found in relocated fields; exit status"])
p("C09","Unresolved or multiply defined strong symbols fail the link",
  "A link exits with a non-zero status exactly when some strong reference has no definition in the linked objects, extracted archive members or named shared libraries, or when two linked objects both give a strong definition of one name (what lies in a COMDAT group whose signature was seen before defines nothing); the message names the offending symbols. A symbol that a shared library merely references itself does not count as a definition, and weak references never make a link fail.",
  ["inputs","schedules"],"all sets of inputs with any subset of references unresolved or definitions duplicated, in all orders and iteration orders",
  TESTS+" No test links a program with an unresolved or duplicated symbol.",
  ["src/lib.rs","src/elf.rs","src/elf/symbol_table.rs"],
  [("undefined_symbols check after the fix-point loop","src/lib.rs link"),("Error::AlreadyDefined","src/elf/symbol_table.rs"),("find_undefined_symbols_in_libs","src/lib.rs")],
  ["exit status and stderr"])
p("C10","Archive members are linked exactly when needed",
  "An archive member becomes part of the output exactly when it defines a symbol that is still undefined in the objects and members linked so far, transitively, and each member is linked at most once. When several archives could supply a symbol, the archive named first on the command line supplies it; members that are not needed contribute nothing.",
  ["inputs","schedules","histories"],"all archives, member dependency graphs (including cycles within and between archives) and archive orders, under all hash-map iteration orders",
  TESTS+" libgcc.a and libc_nonshared.a are scanned but nothing checks which members came in.",
  ["src/lib.rs","src/main.rs"],
  [("process_archives_containing","src/lib.rs"),("fix-point loop in link","src/lib.rs"),("archives collected from the command line","src/main.rs")],
  ["presence and number of each member's unique section contents in the image"])
p("C11","Inputs are found in -L order and missing inputs fail the link",
  "Every input named on the command line or in a GROUP list of a linker script is used: a path that exists is used as such, otherwise the -L directories are searched in command-line order for the name itself, lib<name>.so and lib<name>.a, any shared object being preferred to any archive, and the first match is used. What an input is (object, archive, library or script) is told by its contents and not by its name. If a named input cannot be found or opened the link fails with a message naming it and nothing is silently left out.",
  ["inputs","schedules","fault_sequences"],"all layouts of search directories with any number of candidates, all script contents naming inputs, all iteration orders, and all look-up faults",
  TESTS+" The links test finds each library in whichever directory comes up and would not notice a skipped one.",
  ["src/main.rs","src/linker_script.rs"],
  [("search_for_inputs","src/main.rs"),("handle_linker_args","src/main.rs"),("parse / parse_group_command","src/linker_script.rs")],
  ["which candidate file's unique contents or DT_NEEDED entry ends up in the image; exit status"])
p("C12","Input section contents arrive intact, aligned and disjoint",
  "In a successful link, for each linked object and each of its sections holding program bits (except those of a COMDAT group whose signature an earlier object had, which are left out whole), the output contains that section's bytes exactly once, unchanged except for relocated fields, in the output section of the same name, at an address that is a multiple of the input section's alignment. Contributions of different inputs never overlap, contributions to one output section keep input order, and uninitialised (NOBITS) contributions each get their own zeroed memory of their full size. A section that has the name of one the linker makes itself is never lost silently, and an object with a compressed section makes the link fail.",
  ["inputs","schedules"],"all combinations of sections, sizes, alignments, names and flags over any number of objects and archive members",
  TESTS+" The two programs run even if their few small sections are misaligned or overlap.",
  ["src/elf.rs","src/elf/section.rs","src/elf/chunk.rs","src/lib.rs"],
  [("Writer::add_section appends chunks","src/elf.rs"),("Section::set_address / patch_symbol_values walk the chunks","src/elf/section.rs"),("process_sections","src/lib.rs")],
  ["loaded image, located by unique markers in each input section"])
p("C13","Program headers load every section where the image says it is",
  "The output is a well-formed x86-64 ET_EXEC whose entry point is the address of _start and whose section headers describe the file. Every allocated section (other than thread-local NOBITS, which has no memory of its own) lies inside exactly one PT_LOAD segment whose permissions match the section's flags and which maps the section's file bytes (or zeroes for NOBITS) to the section's address under the kernel's page-granular loading rules, no two segments touch the same page, and PT_PHDR, PT_INTERP (holding the -dynamic-linker path) and PT_DYNAMIC give the true location of what they describe. Inputs with more sections than such a file can number make the link fail.",
  ["inputs","schedules","configurations"],"all mixes of section flags, sizes and alignments, including large NOBITS sections, and all option combinations",
  TESTS+" They only notice a layout the kernel refuses outright.",
  ["src/elf.rs","src/serialize.rs"],
  [("generate_program_headers / get_load_program_header / count_program_headers","src/elf.rs"),("section_cmp","src/elf.rs"),("compute_sections, write_to_disk","src/elf.rs"),("Serialize for headers","src/serialize.rs")],
  ["the image as mapped by the simulated loader"])
p("C14","Relocated fields hold the value the psABI prescribes",
  "In a successful link every relocation of every linked section (allocated or not, wherever its relocation table sits in the file) is applied exactly once at its own place, with the value the x86-64 psABI prescribes for its type, bound symbol, addend and final address, including the rewritten instruction when a GOT load, call or jump is relaxed. If the value does not fit the field, the relocation type is not supported, a relocation refers to a symbol or section that its object does not have or keeps its addend in the field (SHT_REL), or an object defines an indirect function (STT_GNU_IFUNC), the link fails instead of storing a wrong value.",
  ["inputs","schedules"],"all relocation types the linker accepts, all places, addends and symbols, all object file layouts",
  TESTS+" They exercise the handful of relocations of crt files and one call to printf.",
  ["src/elf/chunk.rs","src/lib.rs","src/elf.rs"],
  [("apply_relocation","src/elf/chunk.rs"),("process_relocations","src/lib.rs"),("scan_relocations, add_relocation","src/elf.rs")],
  ["relocated fields and instructions in the loaded image; exit status"])
p("C15","Imported functions and addresses are bound to the right import",
  "After the simulated dynamic loader has processed a successful link's output, every call, jump, GOT load and stored pointer that refers to a function of a shared library reaches exactly that function, both with eager and with lazy binding, also if the function is protected in its library (every entry of .dynsym has default visibility). This holds for any number of imports and for any order in which they were encountered.",
  ["inputs","schedules"],"all sets of imported functions, all mixes of call, GOT and pointer references, all hash-map iteration orders, eager and lazy binding",
  TESTS+" One program with one import cannot confuse two slots.",
  ["src/elf.rs","src/elf/plt.rs","src/elf/chunk.rs"],
  [("scan_relocations allocates GOT and PLT slots","src/elf.rs"),("patch_plt_and_got_plt","src/elf.rs"),("assign_section_addresses emits GLOB_DAT / JUMP_SLOT","src/elf.rs"),("Plt::expand","src/elf/plt.rs")],
  ["targets reached through the loaded image after dynamic relocation, decoded instruction by instruction"])
p("C16","Imported data objects get one private, sufficient copy each",
  "Every reference to a data object of a shared library resolves to one address inside the executable, where a copy relocation for exactly that object reserves at least its size in zeroed writable memory. Different objects' copies never overlap each other or anything else, are aligned for their size (up to 16 bytes at least), and the dynamic symbol table defines the object at the copy's address, by every name its library has for it that the program does not define itself, so that the library sees the same object.",
  ["inputs","schedules"],"all sets and sizes of imported objects, mixed with imported functions, in all iteration orders",
  TESTS+" Neither program imports a data object.",
  ["src/elf/copy_rel.rs","src/elf.rs","src/elf/symbol_table.rs"],
  [("CopyRel::insert","src/elf/copy_rel.rs"),("R_X86_64_COPY emission","src/elf.rs assign_section_addresses"),("update_object_symbols","src/elf/symbol_table.rs")],
  ["copy relocations, dynamic symbols and references in the loaded image"])
p("C17","Dynamic symbol look-up by hash finds every exported symbol",
  "For every hash style, looking up a name through each hash table of the output with the dynamic loader's algorithm finds every symbol of the dynamic symbol table that the image defines, and all the symbols the table covers, at its right index. Looking up a name that is not there terminates within the table and finds nothing.",
  ["inputs","configurations","schedules"],"all numbers and names of dynamic symbols (any bucket and bloom layout, hash collisions included), the three hash styles, all iteration orders",
  TESTS+" The unit test builds one table of two symbols with a single bucket.",
  ["src/elf/symbol_table.rs","src/name.rs","src/serialize.rs","src/elf.rs"],
  [("GnuHashTable::add_symbols","src/elf/symbol_table.rs"),("HashTable::add_symbols","src/elf/symbol_table.rs"),("elf_hash / elf_gnu_hash","src/name.rs"),("sort_symbols_func","src/elf/symbol_table.rs")],
  ["look-ups performed by the simulated loader on the loaded image"])
p("C18","The dynamic section tells the loader the truth",
  "The dynamic section of a successful link is one null-terminated array in which each tag appears at most once except DT_NEEDED, and each address, size and entry size is that of the table it names in the loaded image. DT_NEEDED lists the dynamic loader first and then, without duplicates and in command-line order, the shared library (by its SONAME if it has one) of every library given without --as-needed and of every library that supplies a symbol, and no other library.",
  ["inputs","configurations","schedules"],"all sets of libraries and as-needed settings, all combinations of present and absent tables, all iteration orders",
  TESTS+" They need only libc and only that the loader starts.",
  ["src/elf.rs","src/lib.rs","src/main.rs"],
  [("dyn_entries / try_add_dyn_entries","src/elf.rs"),("add_needed","src/elf.rs"),("--as-needed / --no-as-needed","src/main.rs"),("find_undefined_symbols_in_libs","src/lib.rs")],
  ["dynamic section as read through PT_DYNAMIC in the loaded image"])
p("C19","Constructors and destructors are all registered, in order",
  "The array described by DT_INIT_ARRAY (likewise DT_FINI_ARRAY and DT_PREINIT_ARRAY) holds exactly the entries contributed by all linked inputs' sections of that kind, told by their type whatever they are called or, where their type is not specific, by the name .init_array (.fini_array, .preinit_array), in input order (those of .init_array.N and .fini_array.N first, in ascending order of N; .init_array.NAME without a number counts as .init_array), and __init_array_start/__init_array_end (__fini_array_start/__fini_array_end) bracket exactly that array. DT_INIT and DT_FINI point at the concatenation, in input order, of all .init and .fini fragments.",
  ["inputs","schedules"],"all numbers of inputs contributing to these sections, from objects and archive members, with and without the bracketing symbols being referenced",
  TESTS+" Neither program has a constructor of its own.",
  ["src/elf.rs","src/elf/section.rs"],
  [("handle_special_symbols","src/elf.rs"),("try_add_dyn_entries","src/elf.rs")],
  ["dynamic tags, array contents and relocated references in the loaded image"])
p("C20","The output symbol table describes the image truthfully",
  "Every named symbol of every linked object appears in the output's .symtab with its name, type, binding, size and visibility (of a global symbol that of its definition, or the most constraining any object gives it), and its value and section index are those of the place it was given in the image (or undefined for imports). A symbol that .dynsym defines lies in the section it names. Local symbols precede global ones and the section's sh_info is the index of the first non-local symbol; every string and section link index used is valid.",
  ["inputs","schedules"],"all sets of symbols over any number of objects, all bindings and types, all iteration orders",
  TESTS+" Nothing reads the output's symbol table.",
  ["src/elf/symbol_table.rs","src/elf/string_table.rs","src/elf.rs","src/elf/section.rs"],
  [("SymbolTable::sorted / chunk / finalize / num_locals","src/elf/symbol_table.rs"),("StringTable::get_or_create / chunk","src/elf/string_table.rs"),("patch_symbol_values","src/elf/section.rs")],
  ["symtab and strtab of the output, compared with the model"])
p("C21","Torn or incompatible inputs never yield a wrong executable",
  "If an input object, archive or shared library is truncated at any byte, or is an ELF file of another machine, class, byte order or kind than the linker can use in that role, the link either fails with a non-zero status or, when the missing part is not needed, produces exactly the image that the intact inputs produce. It never reports success for an image with missing or foreign content.",
  ["fault_sequences","inputs"],"every truncation point of every input (a writer that crashed, a copy cut short, a premature end of file), every foreign machine/class/byte order/file kind",
  TESTS+" All inputs in the tests are intact x86-64 files.",
  ["src/lib.rs","src/main.rs","src/error.rs"],
  [("Input::to_elf_object","src/lib.rs"),("file_type","src/main.rs"),("Archive::parse, Elf::parse","src/lib.rs")],
  ["exit status and output bytes, compared with the intact run"])
p("C22","Logging is purely observational",
  "Setting RUST_LOG to any level changes neither the exit status nor any byte of the output of any link, and never makes a link block or crash.",
  ["configurations","inputs","schedules"],"all log levels on all inputs, successful and failing, with any fault on the log stream's partial writes",
  TESTS+" They all run with logging off.",
  ["src/elf.rs","src/lib.rs","src/main.rs","src/elf/symbol_table.rs"],
  [("log::trace! calls that read sections while locks are held","src/elf.rs"),("env_logger::init","src/main.rs")],
  ["exit status and output bytes, compared with the run without logging; lock waits"])
p("C23","Relinking over any earlier output equals a fresh link",
  "Whatever is at the output path when a link starts - nothing, the output of another link, a longer or shorter file, the remains of a crashed or failed link, any permissions - a link that succeeds leaves exactly the bytes and mode that the same link into an empty directory leaves. In particular, repeating a link after any crash, once faults have stopped, succeeds and delivers the complete image.",
  ["histories","crash_points","fault_sequences"],"all histories of links, crashes and failures sharing one output path",
  TESTS+" They always start from no output file.",
  ["src/elf.rs","src/lib.rs"],
  [("File::create truncates","src/elf.rs Writer::new"),("set_permissions at the end","src/elf.rs write_to_disk")],
  ["output bytes and mode after the last link of a history, compared with a fresh link"])
p("C24","Every thread-local access finds its variable",
  "In a started thread, every thread-local access of the linked objects, whether written in the executable's own models or in the general ones, reaches the variable it names: the program's TLS block, no larger than its contents, holds each variable at its aligned place with its initial bytes (zero where none are given), and a thread-local variable of a library is reached through that library's block. All references to one variable agree, whichever object makes them.",
  ["inputs","schedules"],"every set of objects with thread-local data, zeroed thread-local data, alignments, access models and libraries that define thread-local variables, under every hash-map iteration order",
  TESTS+" Neither program has a thread-local variable.",
  ["src/elf.rs","src/lib.rs"],
  [("PT_TLS over .tdata and .tbss","src/elf.rs"),("TPOFF32, GOTTPOFF and TLSGD relocations, TPOFF64 and DTPMOD64 for libraries","src/elf.rs")],
  ["PT_TLS, the code after relocation and the dynamic relocations of the finished image"])
p("C25","An input replaced during the link is used in one version",
  "When an input file is replaced by another version (renamed over) at any instant of a link, the link is either refused or produces exactly the image of a link that saw only the earlier version, or of one that saw only the later version. It never mixes parts of both.",
  ["schedules","inputs","histories"],"every instant between two system calls at which an object, archive, library or linker script is replaced, for every pair of versions",
  TESTS+" Nothing changes while they link.",
  ["src/lib.rs","src/main.rs"],
  [("archives and libraries are consulted in every round of resolving undefined symbols","src/lib.rs"),("file_type and the link itself read the same file","src/main.rs")],
  ["output bytes and exit status, compared with the undisturbed links of either version"])
p("C26","Links that run at the same time do not disturb each other",
  "Two links that run at the same time over the same inputs, with different output paths, each end exactly as they would alone: with the same exit status, and the same bytes and mode at their own output path. This holds for every interleaving of their system calls, and nothing else in the file system changes.",
  ["schedules","histories","fault_sequences"],"every interleaving of the system calls of two links, for all inputs, output names and directories they share",
  TESTS+" The links of the suite run one after the other or in directories of their own.",
  ["src/elf.rs","src/main.rs","src/lib.rs"],
  [("the output is written in place, under its own name only","src/elf.rs"),("inputs are only read","src/lib.rs, src/main.rs")],
  ["exit status, output bytes and modes of both links, and the whole simulated file system"])
p("C27","The command line means what --help says",
  "Equal command lines in other words (an option's argument joined or separate where both forms exist, options that stand for themselves in another place, a repeated option overridden by the last one, switches that nothing sees, ignored options) give the same result, and each documented option has its documented effect. An unknown option, a bad value or a missing argument is refused with a message that names it, and leaves every file as it was; --help prints the help and changes nothing.",
  ["inputs","configurations"],"every command line made of the documented options, their spellings, orders, repetitions and errors, for every set of inputs",
  TESTS+" They use the one command line that gcc builds.",
  ["src/main.rs","src/elf/options.rs"],
  [("handle_linker_args","src/main.rs"),("Options and their FromStr","src/elf/options.rs")],
  ["exit status, stdout, stderr, the whole simulated file system, and the image's interpreter, hash tables and path"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P),"properties")
