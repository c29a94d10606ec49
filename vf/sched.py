"""C10, C11: the real code under a controlled scheduler."""
from .core import *
from .history import NOTLS

class Redirect:
    """Moves writable data into sections of their own and hands calls of the
    C library and of the threading runtime to the scheduler."""
    NAMES = ["memcpy", "memmove", "memset", "__memcpy_chk", "malloc", "calloc", "realloc", "free", "pthread_mutex_init", "pthread_mutex_destroy",
             "pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock", "pthread_spin_lock", "pthread_spin_unlock", "pthread_once",
             "call_once", "mtx_init", "mtx_lock", "mtx_unlock", "sched_yield", "thrd_yield"]
    def __call__(self, o):
        args = []
        for a, b in ((".bss", "libbss"), (".data", "libdata"), (".data.rel", "libdata"), (".data.rel.local", "libdata")):
            args += ["--rename-section", "%s=%s,alloc,load,contents,data" % (a, b)]
        for n in self.NAMES: args += ["--redefine-sym", "%s=verif_%s" % (n, n)]
        must(["objcopy"] + args + [o], "objcopy")
    def __repr__(self): return "Redirect 2 " + " ".join(self.NAMES)

TLS = ["-D__thread=__attribute__((section(\"libtls\")))", "-D_Thread_local=__attribute__((section(\"libtls\")))", "-fno-common"]

def c10(prop="C10"):
    c = Check(prop)
    allv = {"tsan" + o: Variant("tsan" + o, "gcc", X86, ["plain"] + X86, NOASM + TLS + ["-fsanitize=thread"], post=Redirect(),
                                base=[b if b != "-O3" else o for b in BASE]) for o in ("-O3", "-O0")}
    vs = c.build(list(allv), allv)
    n = NCPU * 2
    jobs = []
    for k, v in vs.items():
        exe = c.link(v, "conc.c", "conc")
        jobs += [dict(label="%s, part %d of %d" % (k[4:], i + 1, n), cmd=[exe, "explore", str(i), str(n), "thorough" if c.thorough else "quick"],
                      replay=lambda s, exe=exe: [exe, "replay", s]) for i in range(n)]
    c.jobs(jobs)
    c.cov["schedules_explored"] = c.cov.get("schedules", 0)
    c.assumptions += ["memory is sequentially consistent, except that on first use the library's own data is also explored with stale reads (coherent per location, at most 2 stale reads, order by locks, once-functions and acquire/release atomics)",
                      "threads switch between instrumented memory accesses (the inline assembly is replaced with intrinsics)",
                      "accesses to memory that no two threads share, or that nobody writes, need no preemption point",
                      "up to 3 threads and 2 to 4 preemptions (thorough: 3 to 6)"]
    return c

def c11(prop="C11"):
    c = Check(prop)
    allv = {"omp": Variant("omp", "gcc", X86, ["plain"] + X86, TLS + ["-fopenmp"], post=Redirect()),
            "omp-tsan": Variant("omp-tsan", "gcc", X86, ["plain"] + X86, NOASM + TLS + ["-fopenmp", "-fsanitize=thread"], post=Redirect()),
            "omp-tsan-O0": Variant("omp-tsan-O0", "gcc", X86, ["plain"] + X86, NOASM + TLS + ["-fopenmp", "-fsanitize=thread"], post=Redirect(),
                                   base=[b if b != "-O3" else "-O0" for b in BASE])}
    vs = c.build(list(allv), allv)
    tier = "thorough" if c.thorough else "quick"
    n = NCPU * 2
    jobs = []
    rv = c.build(["openmp"])["openmp"]
    exe = c.link(rv, "omp.c", "omp-real", cflags=["-DREALOMP", "-fopenmp"])
    jobs += [dict(label="libgomp, part %d of %d" % (i + 1, 2), cmd=[exe, "sweep", str(i), "2", tier], env={"OMP_WAIT_POLICY": "passive", "OMP_DYNAMIC": "false"},
                  attempts=100, replay=lambda s, exe=exe: [exe, "replay", s]) for i in range(2)]
    for k, mode in (("omp-tsan", "sched"), ("omp", "sweep"), ("omp-tsan-O0", "sched0")):
        try: exe = c.link(vs[k], "omp.c", "omp")
        except CheckError as e:
            if "undefined reference to `GOMP_" not in str(e) and "undefined reference to `omp_" not in str(e): raise
            c.notes.append("the model of the OpenMP runtime lacks something that the library uses; only libgomp itself is run: %s" % str(e)[-300:])
            c.cov["capped"] = c.cov.get("capped", 0) + 1
            continue
        jobs += [dict(label="%s, part %d of %d" % (k, i + 1, n), cmd=[exe, mode, str(i), str(n), tier],
                      replay=lambda s, exe=exe: [exe, "replay", s]) for i in range(n)]
    c.jobs(jobs)
    c.assumptions += ["memory is sequentially consistent; threads switch between instrumented memory accesses (intrinsics in place of inline assembly)",
                      "the OpenMP runtime is a model of libgomp's entry points that GCC calls; libgomp itself is used in C01, C02, C06, C09 and C16",
                      "all schedules up to 1 to 3 preemptions for up to 4 threads; two schedules (threads one after the other, in both orders) for up to 64"]
    return c

CHECKS = {"C10": c10, "C11": c11}
