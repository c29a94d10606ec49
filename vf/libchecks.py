"""C01..C06 and C16: exhaustive exploration of the library's sequential
behaviour with harness/libmc.c, in all build variants."""
from .core import *

def lib_check(prop):
    c = Check(prop)
    names = ["gcc", "gcc-noasm", "clang", "i686", "plainonly", "aarch64", "aarch64-noasm", "armhf", "armhf-noasm", "s390x"]
    if prop in ("C01", "C02", "C06", "C16"): names.append("openmp")
    if c.thorough: names += ["clang-noasm", "gcc-O1", "clang-O0"]
    vs = c.build(names)
    exes = dict(zip(vs, c.pool.map(lambda v: c.link(v, "libmc.c", "libmc"), vs.values())))
    jobs = []
    for n, v in vs.items():
        avail = ",".join(v.codecs)
        for codec in ["default"] + v.codecs:
            if not cpu_has(codec):
                c.notes.append("%s: this CPU cannot run %s" % (n, codec)); continue
            if n == "gcc-noasm" and not c.thorough and codec in ("default", "plain", "avx512"): continue
            if codec == "default" and n not in ("gcc", "openmp") and not c.thorough: continue
            if n == "openmp" and codec not in ("default", "plain", "ssse3"): continue
            exe = exes[n]
            env = {"OMP_NUM_THREADS": "4"} if v.openmp else {}
            jobs.append(dict(label="%s/%s" % (n, codec), cmd=v.runner + [exe, "explore", prop, "thorough" if c.thorough else "quick", codec, avail, str(v.emu)],
                             replay=lambda s, v=v, e=exe: v.runner + [e, "replay", s], env=env, emu=v.emu))
        if prop == "C16":
            jobs.append(dict(label="%s/stubs" % n, cmd=v.runner + [exes[n], "explore", prop, "quick", "stubs", avail, str(v.emu)],
                             replay=lambda s, v=v, e=exes[n]: v.runner + [e, "replay", s]))
    jobs.sort(key=lambda j: -j.get("emu", 0))
    c.jobs(jobs)
    c.assumptions += [
        "qemu-user executes the NEON and s390x instructions as hardware does",
        "lengths up to %s bytes cover every path through the unrolled loops; larger ones are sampled around powers of two (see C18 for huge ones)" % ("900/1200"),
    ]
    return c
