"""C20: interrupted calls. C21: side effects of calls."""
from .core import *
from .history import history_variants

def flags_of(v):
    ok = [x for x in v.codecs if cpu_has(x)]
    return ",".join("%s:%d" % (x, x == "default" or x in ok) for x in ["default"] + ok + ["neon32" if "neon32" not in v.codecs else "avx"])

def c20(prop="C20"):
    c = Check(prop)
    allv = history_variants(["gcc", "clang", "gcc-noasm", "i686", "plainonly"] if not c.thorough else ["gcc", "clang", "gcc-noasm", "clang-noasm", "i686", "plainonly", "gcc-O1", "clang-O0"])
    vs = c.build(list(allv), allv)
    exes = dict(zip(vs, c.pool.map(lambda v: c.link(v, "reent.c", "reent"), vs.values())))
    jobs = []
    n = NCPU
    for k, v in vs.items():
        f = flags_of(v)
        jobs += [dict(label="%s, part %d of %d" % (k[5:], i + 1, n), cmd=[exes[k], "explore", str(i), str(n), "thorough" if c.thorough else "quick", f],
                      replay=lambda s, e=exes[k], f=f: [e, "replay", f, s]) for i in range(n)]
    c.jobs(jobs)
    c.cov.pop("completed_jobs", None)
    c.assumptions += ["x86-64 and i686; calls of up to 120 bytes, one interruption by one call at each instruction"]
    return c

WRAP = ["-Wl," + ",".join("--wrap=" + f for f in ("malloc", "calloc", "realloc", "free", "aligned_alloc", "posix_memalign", "memalign"))]

def c21(prop="C21"):
    c = Check(prop)
    names = ["gcc", "clang", "gcc-noasm", "i686", "plainonly", "aarch64", "armhf", "s390x", "clang-noasm", "gcc-O1", "clang-O0", "aarch64-noasm"]
    allv = history_variants([n for n in names if n in variants()])
    vs = c.build(list(allv), allv)
    exes = dict(zip(vs, c.pool.map(lambda v: c.link(v, "effects.c", "effects", extra=WRAP), vs.values())))
    jobs = []
    for k, v in vs.items():
        f = flags_of(v); n = len(f.split(","))
        jobs += [dict(label="%s, part %d of %d" % (k[5:], i + 1, n), cmd=v.runner + [exes[k], "explore", str(i), str(n), "thorough" if c.thorough else "quick", f], emu=v.emu,
                      replay=lambda s, e=exes[k], f=f, v=v: v.runner + [e, "replay", f, s]) for i in range(n)]
    jobs.sort(key=lambda j: -j["emu"])
    c.jobs(jobs)
    c.cov.pop("completed_jobs", None)
    c.assumptions += ["libraries without OpenMP; system calls are trapped on x86 only"]
    return c

CHECKS = {"C20": c20, "C21": c21}
