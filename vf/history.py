"""C08, C09: all histories of calls, by breadth-first search on the real code."""
from .core import *
from .cpuid import build_core

def c08(prop="C08"):
    c = Check(prop)
    A64, A32, S390 = "/usr/bin/aarch64-linux-gnu-gcc", "/usr/bin/arm-linux-gnueabihf-gcc", "/usr/bin/s390x-linux-gnu-gcc"
    todo = []       # tag, cc, have, defaults, build args, runner
    for arch, cc in (("x86_64", "gcc"), ("x86_64-clang", "clang"), ("i686", "/usr/bin/i686-linux-gnu-gcc")):
        todo.append((arch, cc, X86, ["plain"] + X86, dict(harness_flags=("-DTRAPCPU",)), []))
    todo.append(("x86_64-openmp", "gcc", X86, ["plain", "ssse3", "avx2"], dict(harness_flags=("-DTRAPCPU",), cflags=("-fopenmp",), ldflags=("-static", "-fopenmp")), []))
    todo.append(("x86_64-bare", "gcc", [], ["plain"], dict(trap=False), []))
    todo.append(("aarch64", A64, ["neon64"], ["neon64"], dict(trap=False, objcopy="aarch64-linux-gnu-objcopy"), ["/usr/bin/qemu-aarch64"]))
    todo.append(("aarch64-bare", A64, [], ["plain"], dict(trap=False, objcopy="aarch64-linux-gnu-objcopy"), ["/usr/bin/qemu-aarch64"]))
    todo.append(("armhf", A32, ["neon32"], ["neon32"], dict(trap=False, objcopy="arm-linux-gnueabihf-objcopy", cflags=("-mfpu=neon",)), ["/usr/bin/qemu-arm"]))
    todo.append(("armhf-bare", A32, [], ["plain"], dict(trap=False, objcopy="arm-linux-gnueabihf-objcopy"), ["/usr/bin/qemu-arm"]))
    todo.append(("s390x", S390, [], ["plain"], dict(trap=False, objcopy="s390x-linux-gnu-objcopy"), ["/usr/bin/qemu-s390x"]))
    def one(t):
        tag, cc, have, defs, kw, runner = t
        return t, build_core("flag-" + tag, cc, have, "codecflag.c", **kw)
    jobs = []
    for (tag, cc, have, defs, kw, runner), exe in c.pool.map(one, todo):
        for d in defs:
            env = {"OMP_NUM_THREADS": "3", "OMP_WAIT_POLICY": "passive"}
            jobs.append(dict(label="%s, default codec %s" % (tag, d), cmd=runner + [exe, "explore", d], env=env,
                             replay=lambda s, e=exe, r=runner, d=d: r + [e, "replay", d, s]))
    c.jobs(jobs)
    c.assumptions += ["two streams and the one-shot calls stand for any number of them: the search covers every state that the library's own writable data can reach with them",
                      "a stand-in codec returns and reports what it is told to; the real codecs are the subject of C01 to C06 and C16"]
    return c

class Sections:
    """Moves an object's writable data into sections of their own."""
    def __init__(self, objcopy): self.objcopy = objcopy
    def __call__(self, o):
        args = []
        for a, b in ((".bss", "libbss"), (".data", "libdata"), (".data.rel", "libdata"), (".data.rel.local", "libdata")):
            args += ["--rename-section", "%s=%s,alloc,load,contents,data" % (a, b)]
        must([self.objcopy] + args + [o], "objcopy")
    def __repr__(self): return "Sections " + self.objcopy

NOTLS = ["-D__thread=", "-D_Thread_local=", "-fno-common"]

def history_variants(names):
    vs = {}
    for n in names:
        v = variants()[n]
        v.name = "hist-" + v.name
        v.cflags = v.cflags + NOTLS
        if v.cc == "clang": v.cflags.remove("-fno-common")
        oc = "objcopy"
        for t in ("aarch64-linux-gnu", "arm-linux-gnueabihf", "s390x-linux-gnu"):
            if t in v.cc: oc = "/usr/bin/%s-objcopy" % t
        v.post = Sections(oc)
        vs[v.name] = v
    return vs

def c09(prop="C09"):
    c = Check(prop)
    allv = history_variants(["gcc", "gcc-noasm", "clang", "i686", "plainonly", "openmp", "aarch64", "armhf", "s390x"])
    vs = c.build(list(allv), allv)
    exes = dict(zip(vs, c.pool.map(lambda v: c.link(v, "history.c", "history"), vs.values())))
    jobs = []
    for n, v in vs.items():
        ok = [x for x in v.codecs if cpu_has(x)]
        off = "neon32" if "neon32" not in v.codecs else "neon64"
        sets = []
        if v.emu: sets = [[ok[-1], off]] if ok[-1] == "plain" else [[ok[-1], "plain"], [ok[-1], off]]
        elif len(ok) > 1:
            pairs = [(a, b) for i, a in enumerate(ok) for b in ok[:i]]
            if not c.thorough: pairs = [(ok[-1], "plain"), (ok[1], ok[-2]), ("avx", "avx2")] if n == "hist-gcc" else [(ok[-1], "ssse3")]
            sets = [["default", a, b, off] if n == "hist-gcc" or c.thorough else ["default", a, b] for a, b in pairs if a in ok and b in ok]
        else: sets = [["default", "plain", off]]
        for s in sets:
            arg = ",".join("%s:%d" % (x, x == "default" or x in ok) for x in s)
            jobs.append(dict(label="%s, %s" % (n[5:], "/".join(s)), cmd=v.runner + [exes[n], "explore", arg], emu=v.emu,
                             replay=lambda x, v=v, e=exes[n], arg=arg: v.runner + [e, "replay", arg, x]))
    jobs.sort(key=lambda j: -j["emu"])
    c.jobs(jobs)
    c.assumptions += ["two streams stand for any number; the chunks are %d encode and %d decode chunks of 0 to 170 bytes" % (6, 13),
                      "a state is the library's writable data, the raw bytes of both stream structures and the reference's state of both; it is explored until nothing new appears"]
    return c

CHECKS = {"C08": c08, "C09": c09}
