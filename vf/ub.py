"""C22: nothing undefined. The explorations of the library and of the utility
once more, with the code instrumented to stop at undefined behaviour."""
from .core import *
from .cli import build_cli
from .effects import flags_of

ENV = {"ASAN_OPTIONS": "abort_on_error=1:handle_segv=0:handle_sigbus=0:handle_sigill=0:handle_sigfpe=0:handle_abort=0:detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=1",
       "UBSAN_OPTIONS": "abort_on_error=1:handle_segv=0:handle_sigbus=0:handle_sigill=0:handle_sigfpe=0:handle_abort=0",
       "MSAN_OPTIONS": "abort_on_error=1:handle_segv=0:handle_sigbus=0:handle_sigill=0:handle_sigfpe=0:handle_abort=0"}
AU = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-g"]
MS = ["-fsanitize=memory", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-g"]
TR = ["-fsanitize=undefined", "-fsanitize-undefined-trap-on-error", "-g"]  # needs no runtime
O0 = [x if x != "-O3" else "-O0" for x in BASE]     # nothing is optimised away before it is looked at
O1 = [x if x != "-O3" else "-O1" for x in BASE]

def san_variants():
    P, A = ["plain"], AU[:1]
    real = variants()
    v = [
        Variant("ub-gcc", "gcc", X86, P + X86, AU, base=O1, ldflags=A),
        Variant("ub-gcc-noasm", "gcc", X86, P + X86, AU + NOASM, base=O1, ldflags=A),
        Variant("ub-clang", "clang", X86, P + X86, AU, base=O1, ldflags=A),
        Variant("ub-clang-noasm", "clang", X86, P + X86, AU + NOASM, base=O0, ldflags=A),
        Variant("ub-openmp", "gcc", X86, P + X86, AU, base=O1, openmp=True, ldflags=A + ["-fopenmp"]),
        Variant("ub-plainonly", "clang", [], P, AU, base=O1, ldflags=A),
        Variant("ub-msan", "clang", X86, P + X86, MS + NOASM, base=O1, ldflags=MS[:1]),
        Variant("ub-msan0", "clang", X86, P + X86, MS + NOASM, base=O0, ldflags=MS[:1]),
    ]
    for n in ("i686", "aarch64", "aarch64-noasm", "armhf", "armhf-noasm", "s390x"):
        r = real[n]
        v.append(Variant("ub-" + n, r.cc, r.have, r.codecs, r.cflags + TR, r.runner, r.emu, wrap=r.wrap, optional=r.optional, base=O1))
    return {x.name: x for x in v}

def tables(c):
    """The table generator."""
    src = os.path.join(REPO, "lib", "tables", "table_generator.c")
    if not os.path.exists(src): return
    d = os.path.join(BUILD, "ubgen-%d" % os.getpid())
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    try:
        for cc, fl in (("gcc", AU), ("clang", AU), ("clang", MS)):
            exe = d + "/gen"
            must([cc, "-O1", "-w", src, "-o", exe] + fl, "compiling the table generator")
            for a in ([], ["-_="], ["abc"], ["-_"], ["-_=x"], [""]):
                r = run([exe] + a, env=dict(os.environ, **ENV), timeout=60)
                c.add(1, 1, 1)
                m = re.search(r"runtime error: .*|ERROR: AddressSanitizer.*|WARNING: MemorySanitizer.*", r.stdout)
                if m or r.returncode < 0:
                    msg = "the table generator with arguments %s: %s" % (a, m.group(0) if m else "dies with %d" % r.returncode)
                    c.violation(msg, dict(cmd=[sys.executable, os.path.join(VERIF, "check"), c.prop], label=msg)); return
    finally: shutil.rmtree(d, ignore_errors=True)

CLI = {"C12": [(0, 0), (3, 4), (5, 5)], "C13": [(0, 0), (1, 0), (4, 0), (7, 0)], "C14": [(0, 0), (2, 2), (7, 4)], "C15": [(0, 0)]}

def c22(prop="C22"):
    c = Check(prop)
    allv = san_variants()
    vs = c.build(list(allv), allv)
    M = ["-DVERIF_MSAN"] + MS[:1]
    exes = dict(zip(vs, c.pool.map(lambda v: c.link(v, "libmc.c", "libmc-ub", cflags=M if v.name.startswith("ub-msan") else []), vs.values())))
    jobs = []
    tier = "thorough" if c.thorough else "quick"
    for n, v in vs.items():
        for codec in ["default"] + v.codecs:
            if not cpu_has(codec): continue
            spaces = ["C16", "C19", "C06"] if codec != "default" else ["C16"]
            if c.thorough: spaces += ["C01", "C02", "C03", "C04", "C05"]
            elif n in ("ub-clang", "ub-msan") and codec == "plain": spaces += ["C05"]
            if v.emu and not c.thorough: spaces = ["C19", "C06"]
            if n == "ub-msan0": spaces = ["C16", "C19"] if c.thorough else ["C19"]
            for s in spaces:
                jobs.append(dict(label="%s/%s, the space of %s" % (n[3:], codec, s), cmd=v.runner + [exes[n], "explore", s, tier, codec, ",".join(v.codecs), str(v.emu)],
                                 replay=lambda x, v=v, e=exes[n]: v.runner + [e, "replay", x], env=dict(ENV, OMP_NUM_THREADS="4"), emu=v.emu))
    jobs.sort(key=lambda j: -j["emu"])
    todo = []
    for n, san, hsan in (("ub-clang", AU, ["-DVERIF_ASAN"]), ("ub-gcc", AU, ["-DVERIF_ASAN"]), ("ub-msan", MS, ["-DVERIF_MSAN"] + MS[:1])):
        for p, sizes in CLI.items():
            for raw, iov in sizes:
                if n == "ub-msan" and not raw and p in ("C13", "C14") and not c.thorough: continue
                if n == "ub-gcc" and (raw or p == "C15") and not c.thorough: continue
                for emu in ((False, True) if p == "C14" and raw == 7 else (False,)):
                    todo.append((p, vs[n], raw, iov, emu, tuple(["-O1" if n == "ub-gcc" else "-O0"] + san), tuple(hsan)))
    uniq = {(t[1].name,) + t[2:]: t[1:] for t in todo}
    built = dict(zip(uniq, c.pool.map(lambda t: build_cli(c, *t), uniq.values())))
    for p, v, raw, iov, emu, san, hsan in todo:
        exe = built[v.name, raw, iov, emu, san, hsan]
        n = 2 if raw else NCPU
        for i in range(n):
            jobs.append(dict(label="utility, %s%s, buffer %s, vectors %s, the space of %s, part %d of %d" % (v.name[3:], ", writev() emulated" if emu else "", raw or "as it is", iov or "as they are", p, i + 1, n),
                             cmd=[exe, "explore", p, str(i), str(n), "quick"], replay=lambda s, exe=exe: [exe, "replay", s], env=ENV))
    tables(c)
    c.jobs(jobs)
    c.cov.pop("completed_jobs", None)
    c.cov["jobs"] = len(jobs)
    c.assumptions += ["AddressSanitizer, MemorySanitizer and UndefinedBehaviorSanitizer of gcc 13 and clang 18 see undefined behaviour when it is executed; on the other targets only UndefinedBehaviorSanitizer is there, without its run-time library",
                      "inline assembly is not instrumented; what it reads and writes is C06's matter"]
    return c

CHECKS = {"C22": c22}
