"""Helpers of the demonstrations: everything they make lives in a scratch directory."""
import atexit, os, shutil, struct, subprocess, sys, tempfile

DLD = os.path.join(os.getcwd(), "target", "debug", "dld")
W = tempfile.mkdtemp(prefix="dlddemo")
atexit.register(shutil.rmtree, W, True)
os.environ.pop("RUST_LOG", None)
os.environ.pop("RUST_BACKTRACE", None)


def p(name):
    return os.path.join(W, name)


def write(name, data):
    os.makedirs(os.path.dirname(p(name)), exist_ok=True)
    with open(p(name), "wb") as f:
        f.write(data.encode() if isinstance(data, str) else data)
    return p(name)


def read(name):
    with open(p(name), "rb") as f:
        return f.read()


def tool(*cmd):
    r = subprocess.run(cmd, cwd=W, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        print(r.stdout.decode(errors="replace"))
        print("demo: cannot run", cmd)
        sys.exit(0)
    return r.stdout


def asm(name, text):
    src = write(name + ".s", text)
    tool("as", "--64", "-mrelax-relocations=yes", "-o", p(name + ".o"), src)
    return name + ".o"


def so(name, text, soname=None):
    """A shared library from assembly."""
    o = asm(name + ".so.tmp", text)
    tool("ld", "-shared", "-z", "now", "-soname", soname or os.path.basename(name), "-o", p(name), p(o))
    return name


def ar(name, *members):
    os.makedirs(os.path.dirname(p(name)), exist_ok=True)
    if os.path.exists(p(name)):
        os.unlink(p(name))
    tool("ar", "rcs", p(name), *[p(m) for m in members])
    return name


def dld(*args, env=None, timeout=60):
    """Links in the scratch directory; (status, stderr).  A hang is status 'hang'."""
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run([DLD, *args], cwd=W, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                           stdin=subprocess.DEVNULL, timeout=timeout)
    except subprocess.TimeoutExpired:
        return "hang", ""
    return r.returncode, r.stderr.decode(errors="replace")


def link(*args):
    """As dld, with the C library: the loader is taken from it, so programs only run if they need it."""
    return dld(*args, tool("gcc", "-print-file-name=libc.so.6").decode().strip())


SHIM = r"""
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
static long env(const char *n) { const char *s = getenv(n); return s ? atol(s) : -1; }
static long total, count;
ssize_t write(int fd, const void *b, size_t n) {
  static ssize_t (*real)(int, const void *, size_t);
  if (!real) real = dlsym(RTLD_NEXT, "write");
  if (fd <= 2) return real(fd, b, n);
  long s = env("SHORT_WRITE"), full = env("DISK_FULL"), k = env("KILL_WRITE");
  if (k >= 0 && count++ == k) _exit(137);
  if (s > 0 && n > (size_t)s) n = s;
  if (full >= 0) {
    if (total >= full) { errno = ENOSPC; return -1; }
    if (total + (long)n > full) n = full - total;
  }
  ssize_t r = real(fd, b, n);
  if (r > 0) total += r;
  return r;
}
ssize_t read(int fd, void *b, size_t n) {
  static ssize_t (*real)(int, void *, size_t);
  if (!real) real = dlsym(RTLD_NEXT, "read");
  long s = env("SHORT_READ");
  if (s > 0 && n > (size_t)s) n = s;
  return real(fd, b, n);
}
int fchmod(int fd, mode_t m) {
  static int (*real)(int, mode_t);
  if (!real) real = dlsym(RTLD_NEXT, "fchmod");
  if (env("CHMOD_FAIL") == (long)m) { errno = EPERM; return -1; }
  return real(fd, m);
}
"""


def shim(**env):
    """The environment for a link with disturbed I/O."""
    if not os.path.exists(p("shim.so")):
        tool("gcc", "-shared", "-fPIC", "-O1", "-o", p("shim.so"), write("shim.c", SHIM), "-ldl")
    e = {k: str(v) for k, v in env.items()}
    e["LD_PRELOAD"] = p("shim.so")
    return e


def execute(name="out", env=None, timeout=20):
    """Runs a linked program; its exit status."""
    e = dict(os.environ)
    e["LD_LIBRARY_PATH"] = W
    e.update(env or {})
    try:
        return subprocess.run([p(name)], cwd=W, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                              timeout=timeout).returncode
    except (subprocess.TimeoutExpired, OSError):
        return "unrunnable"


class Elf:
    def __init__(self, name="out"):
        d = self.d = read(name)
        self.entry, self.phoff, self.shoff = struct.unpack_from("<QQQ", d, 24)
        (phn,) = struct.unpack_from("<H", d, 56)
        shn, shstr = struct.unpack_from("<HH", d, 60)
        self.ph = [struct.unpack_from("<IIQQQQQQ", d, self.phoff + 56 * i) for i in range(phn)]
        raw = [struct.unpack_from("<IIQQQQIIQQ", d, self.shoff + 64 * i) for i in range(shn)]
        names = raw[shstr]
        self.sh = []
        for s in raw:
            n = self.cstr(names[4] + s[0])
            self.sh.append(dict(name=n, type=s[1], flags=s[2], addr=s[3], off=s[4], size=s[5], link=s[6],
                                info=s[7], align=s[8], ent=s[9]))

    def cstr(self, off):
        return self.d[off:self.d.index(b"\0", off)].decode("latin-1")

    def sec(self, name):
        return next((s for s in self.sh if s["name"] == name), None)

    def syms(self, table=".symtab"):
        t = self.sec(table)
        strs = self.sh[t["link"]]
        r = []
        for o in range(t["off"], t["off"] + t["size"], 24):
            n, info, other, shndx, val, size = struct.unpack_from("<IBBHQQ", self.d, o)
            r.append(dict(name=self.cstr(strs["off"] + n), bind=info >> 4, type=info & 15, shndx=shndx, value=val, size=size))
        return r

    def sym(self, name, table=".symtab"):
        return next((s for s in self.syms(table) if s["name"] == name), None)

    def at(self, addr, n):
        """Bytes of the image at an address."""
        for (t, fl, off, va, pa, fs, ms, al) in self.ph:
            if t == 1 and va <= addr < va + ms:
                b = self.d[off + addr - va:off + min(fs, addr - va + n)]
                return b + bytes(n - len(b))
        return None

    def q(self, addr):
        return struct.unpack("<Q", self.at(addr, 8))[0]

    def dyn(self):
        s = self.sec(".dynamic")
        return [struct.unpack_from("<QQ", self.d, o) for o in range(s["off"], s["off"] + s["size"], 16)]


# leaves with the status in %edi
EXIT = "mov $60, %eax\nsyscall\n"


def check(ok, what):
    if not ok:
        print("demo: " + what)
        sys.exit(1)
