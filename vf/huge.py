"""C18: single calls on gigabytes."""
from .core import *

FLAG = dict(plain=8, neon32=2, neon64=4, ssse3=16, sse41=32, sse42=64, avx=128, avx2=1, avx512=256)

def check_huge():
    c = Check("C18")
    G = 1 << 30
    names = ["gcc", "gcc-noasm", "openmp", "i686", "i686-openmp", "aarch64", "aarch64-noasm", "armhf"] + (["clang", "s390x", "armhf-noasm"] if c.thorough else [])
    from .core import Variant
    allv = variants()
    allv["i686-openmp"] = Variant("i686-openmp", "/usr/bin/i686-linux-gnu-gcc", X86, ["plain"] + X86, openmp=True, ldflags=("-static", "-fopenmp"))
    vs = c.build(names, allv)
    exe = {n: c.link(v, "huge.c", "huge") for n, v in vs.items()}
    def fl(v, only=None): return [FLAG[k] for k in v.codecs if k in FLAG and cpu_has(k) and (only is None or k in only)]
    def j(n, what, flags, lens, cases="0", env={}):
        s = lambda x: ",".join(map(str, x))
        return dict(label="%s %s" % (n, what), cmd=vs[n].runner + [exe[n], "explore", what, s(flags), s(lens), cases], replay=lambda x: vs[n].runner + [exe[n], "replay", x], env=env)
    waves = []
    main = [n for n in names if n in ("gcc", "clang") or c.thorough and n == "gcc-noasm"]
    for n in main:
        v = vs[n]; f = fl(v); h = (len(f) + 1) // 2
        waves.append([j(n, "enc", f, [4 * G + 101]), j(n, "dec", f[:h], [4 * G + 4096 * 3 + 8], "35"), j(n, "dec", f[h:], [4 * G + 4096 * 3 + 8], "35")])
        waves.append([j(n, "senc", f[-1:] + f[:1], [4 * G + 103, 3 * G + 50, 2 * G + 1]), j(n, "sdec", f[-1:] + f[:1], [4 * G + 4096 * 3 + 8], "0246"),
                      j(n, "dec", f if c.thorough else f[:1] + f[-1:], [4 * G + 4096 * 3 + 8, 2 * G + 12], "0124")])
        if c.thorough: waves.append([j(n, "enc", f, [3 * G + 50, 2 * G + 1, 2 * G - 1, 3 * G // 2 + 2, 3 * G // 2 - 1]), j(n, "dec", f, [8 * G // 3 + 4, 4 * G, 2 * G, 2 * G - 4], "0123456")])
    if c.thorough: waves.append([j("gcc", "enc", [2, FLAG["avx2"]], [13 * G // 2 + 1])])
    A = lambda *n: [x for x in n if x in vs]
    waves.append([j(n, "enc", [4], [4 * G + 101]) for n in A("aarch64", "aarch64-noasm")[:1 + c.thorough]] + [j(n, "dec", [4], [4 * G + 4096 * 3 + 8], "3") for n in A("aarch64", "aarch64-noasm")] +
                 [j("armhf", "enc", [2], [G + G // 9])])
    waves.append([j("armhf", "dec", [2], [3 * G // 2 + 4 * 4096], "2")] + ([j("armhf-noasm", "dec", [2], [3 * G // 2 + 4 * 4096], "2"), j("s390x", "enc", [8], [4 * G + 101]), j("s390x", "dec", [8], [4 * G + 4096 * 3 + 8], "23")] if c.thorough and "armhf-noasm" in vs else [])
                 + ([j("gcc-noasm", "enc", [x for x in fl(vs["gcc-noasm"]) if x != 8], [4 * G + 101])] if not c.thorough else []))
    T = lambda k: {"OMP_NUM_THREADS": str(k)}
    for k in ((8, 3) if not c.thorough else (1, 2, 3, 5, 7, 8, 16)):
        waves.append([j("openmp", "enc", [0], [4 * G + 101, 2 * G + 5], env=T(k)), j("openmp", "dec", [0], [4 * G + 4096 * 3 + 8], "02345" if k == 8 or c.thorough else "035", env=T(k)),
                      j("i686-openmp", "enc", [0], [3 * G // 2 - 12345, G + 7], env=T(k))])
    waves.append([j("i686-openmp", "dec", [0], [2 * G + 8], "0235", env=T(8)), j("i686", "enc", fl(vs["i686"], None if c.thorough else ("plain", "avx2", "avx512")), [3 * G // 2 - 1111]),
                  j("i686", "dec", fl(vs["i686"], None if c.thorough else ("plain", "avx2", "avx512")), [2 * G + 4 * 4096], "025")])
    for w in waves:
        c.jobs(w)
        if c.viol: break
    c.assumptions.append("codecs that this machine cannot execute are not run; at most %d GiB are in memory at a time" % 14)
    return c

CHECKS = {"C18": check_huge}
