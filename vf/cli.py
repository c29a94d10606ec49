"""C12 to C15: the command line utility in a scripted environment."""
from .core import *

REDIR = ["fopen", "fopen64", "open64", "fclose", "fileno", "open", "close", "read", "write", "writev", "malloc", "calloc", "realloc", "free", "exit", "_exit", "abort"]

def build_cli(c, v, raw, iov, emu=False, san=(), hsan=()):
    """bin/base64.c with small buffers, in the harness, with the library of variant v.
    san, hsan: more flags for the utility and for the harness."""
    tag = "%s-%s-%s%s" % (v.name, raw or "real", iov or "real", "-emu" if emu else "")
    h = hashlib.sha256(repr((tree_hash("lib", "include", "bin", "CMakeLists.txt", "cmake"), tag, v.cc, v.dir(), REDIR, san, hsan)).encode())
    for f in ("cli.c", "ref.h"): h.update(open(os.path.join(HARN, f), "rb").read())
    d = os.path.join(BUILD, "cli-%s-%s" % (tag, h.hexdigest()[:16]))
    exe = os.path.join(d, "x")
    if os.path.exists(exe): return exe
    tmp = d + ".tmp%d" % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp + "/shim")
    fl = ["-DRAW=%d" % raw] if raw else []
    hook = ["-DBASE64_VERIF_RAW_SIZE=%d" % raw] if raw else []
    if iov:
        open(tmp + "/shim/limits.h", "w").write("#include_next <limits.h>\n#undef IOV_MAX\n#define IOV_MAX %d\n" % iov)
        hook += ["-I", tmp + "/shim"]
    if emu: hook += ["-DEMULATE_WRITEV"]  # the code for systems without writev()
    o = tmp + "/base64.o"
    must([v.cc] + (list(san) or ["-O2"]) + ["-g", "-w", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-fno-common", "-Dmain=cli_main", "-DBASE64_STATIC_DEFINE", "-D__thread=", "-D_Thread_local="] + hook +
         ["-I", v.dir(), "-I", os.path.join(REPO, "include"), "-c", os.path.join(REPO, "bin", "base64.c"), "-o", o], "compiling bin/base64.c")
    oc = "objcopy"
    for t in ("aarch64-linux-gnu", "arm-linux-gnueabihf", "s390x-linux-gnu"):
        if t in v.cc: oc = "/usr/bin/%s-objcopy" % t
    args = []
    for a in sorted(set(re.findall(r"^\s*\d+\s+(\.(?:bss|data)\S*)\s", must([oc.replace("objcopy", "objdump"), "-h", o], "objdump"), re.M))):
        if a.startswith(".data.rel.ro"): continue
        args += ["--rename-section", "%s=%s,alloc,load,contents,data" % (a, "libbss" if a.startswith(".bss") else "libdata")]
    for n in REDIR: args += ["--redefine-sym", "%s=verif_%s" % (n, n)]
    must([oc] + args + [o], "objcopy")
    must([v.cc, "-O2", "-g", "-w", "-I", HARN] + fl + list(hsan) + (["-DEMULATE_WRITEV"] if emu else []) + ["-c", os.path.join(HARN, "cli.c"), "-o", tmp + "/cli.o"], "compiling cli.c")
    must([v.cc, tmp + "/cli.o", o] + v.objs() + ["-o", tmp + "/x"] + v.ldflags, "linking the utility")
    shutil.rmtree(d, ignore_errors=True)
    try: os.rename(tmp, d)
    except OSError: shutil.rmtree(tmp, ignore_errors=True)
    return exe

def build_real(v):
    """The utility as it is."""
    h = hashlib.sha256(repr((tree_hash("lib", "include", "bin", "CMakeLists.txt", "cmake"), v.cc, v.dir())).encode()).hexdigest()[:16]
    d = os.path.join(BUILD, "cliprog-%s-%s" % (v.name, h))
    os.makedirs(d, exist_ok=True)
    if not os.path.exists(d + "/base64"):
        tmp = "%s/base64.%d" % (d, os.getpid())
        must([v.cc] + v.base + v.cflags + ["-I", v.dir(), "-I", os.path.join(REPO, "include"), os.path.join(REPO, "bin", "base64.c")] + v.objs() + ["-o", tmp], "linking the utility")
        os.rename(tmp, d + "/base64")
    return d + "/base64"

SIZES = {
    "C12": [(0, 0), (1, 2), (2, 3), (3, 4), (4, 2), (5, 5), (6, 3), (7, 8), (16, 1), (64, 6)],
    "C13": [(0, 0), (1, 0), (2, 0), (3, 0), (4, 0), (5, 0), (7, 0), (13, 0)],
    "C14": [(0, 0), (2, 2), (3, 3), (7, 4), (12, 5), (64, 2)],
    "C15": [(0, 0), (3, 0)],
}

# for the builds other than the first; the first of them alone for emulated targets
FAR = { "C12": [(5, 5), (0, 0)], "C13": [(3, 0), (0, 0)], "C14": [(3, 3), (0, 0)], "C15": [(3, 0), (0, 0)] }

def cli_check(prop):
    c = Check(prop)
    # unsigned char and other byte orders: the utility for other targets, with few of the buffer sizes
    far = ["aarch64", "s390x"] + (["armhf"] if c.thorough else [])
    vs = c.build(["gcc", "i686", "clang"] + far)
    tier = "thorough" if c.thorough else "quick"
    jobs = []
    todo = [(v, raw, iov, False) for n, v in vs.items() for raw, iov in SIZES[prop] if n == "gcc" or (c.thorough and n == "i686") or (raw, iov) in FAR[prop] if n not in far or (raw, iov) == FAR[prop][0] or c.thorough]
    if prop in ("C12", "C14"): todo += [(vs["gcc"], raw, iov, True) for raw, iov in ((0, 0), (3, 3), (7, 4))]
    todo = [t + ((),) for t in todo] + [(vs["gcc"], raw, iov, False, ("-O2", "-funsigned-char")) for raw, iov in FAR[prop]]
    for (v, raw, iov, emu, fl), exe in c.pool.map(lambda t: (t, build_cli(c, *t)), todo):
        n = NCPU if not raw or prop == "C15" or v.emu else 2 if prop != "C14" else 4
        jobs += [dict(label="%s%s%s, buffer %s, vectors %s, part %d of %d" % (v.name, ", unsigned char" if fl else "", ", writev() emulated" if emu else "", raw or "as it is", iov or "as they are", i + 1, n),
                      cmd=v.runner + [exe, "explore", prop, str(i), str(n), "quick" if v.emu else tier], emu=v.emu, replay=lambda s, exe=exe, v=v: v.runner + [exe, "replay", s]) for i in range(n)]
    for v in vs.values():
        if v.name == "i686" and not c.thorough or v.emu or v.name == "clang": continue
        cmd = [sys.executable, os.path.join(HARN, "cli_real.py"), build_real(v), prop]
        jobs.insert(0, dict(label="%s, the program as a process" % v.name, cmd=cmd, replay=lambda s, cmd=cmd: cmd + [s]))
    c.jobs(jobs)
    c.cov.pop("completed_jobs", None)
    c.cov["jobs"] = len(jobs)
    return c

CHECKS = {p: (lambda p=p: cli_check(p)) for p in SIZES}
