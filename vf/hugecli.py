"""C24: the utility on streams and files of gigabytes."""
from .core import *
from .cli import build_real

G = 1 << 30

def c24(prop="C24"):
    c = Check(prop)
    vs = c.build(["gcc", "i686"] + (["clang", "openmp", "aarch64"] if c.thorough else []))
    must(["gcc", "-O2", "-w", os.path.join(HARN, "hugecli.c"), "-o", os.path.join(BUILD, "hugecli.%d" % os.getpid())], "compiling hugecli.c")
    drv = os.path.join(BUILD, "hugecli"); os.rename(drv + ".%d" % os.getpid(), drv)
    scratch = os.path.join(BUILD, "hugecli-scratch-%d" % os.getpid()); os.makedirs(scratch)
    jobs = []
    for n, v in vs.items():
        # raw lengths: the input passes 2^32 bytes (and the output 2^31 on the way), and, less, the output does
        L = [4 * G + 100, 4 * G + 101] if not v.emu else [2 * G + 100]
        S = ["enc:pipe:76:%d:ok" % L[-1], "enc:pipe:0:%d:ok" % L[0], "enc:pipe:%d:%d:ok" % ((1 << 31) - 1, L[-1]), "dec:pipe:76:%d:ok" % L[-1], "one:pipe:0:%d:ok" % L[0],
             "ign:pipe:1000:%d:ok" % (3 * G + 50), "dec:pipe:0:%d:cut" % L[0], "dec:pipe:60000:%d:bad" % (3 * G + 51), "enc:file:76:%d:ok" % (2 * G), "enc:file:0:%d:ok" % (2 * G - 1),
             "enc:file:1000:%d:ok" % (4 * G + 2), "ign:file:0:%d:ok" % (5 * G), "ign:file:0:%d:cut" % (5 * G)]
        if v.name != "i686": S += ["enc:pipe:%d:%d:ok" % (w, 3 * G + 77) for w in (1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 5)]
        if c.thorough and not v.emu:
            S += ["enc:pipe:4:%d:ok" % (2 * G), "enc:pipe:76:%d:ok" % (12 * G + 2), "dec:pipe:76:%d:ok" % (12 * G + 2), "dec:pipe:4:%d:ok" % (3 * G + 1), "one:pipe:0:%d:cut" % (6 * G + 1), "one:pipe:0:%d:bad" % (6 * G + 1), "ign:pipe:1:%d:ok" % (2 * G)]
            S += ["enc:pipe:76:%d:ok" % x for x in (3 * G // 2 - 1, 3 * G // 2, 3 * G, 3 * G + 1, 2 * G, 4 * G)] + ["dec:pipe:76:%d:ok" % x for x in (3 * G // 2 - 1, 3 * G // 2, 3 * G, 3 * G + 1, 2 * G, 4 * G)]
        exe = build_real(v)
        if v.emu:
            w = os.path.join(scratch, "run-" + n); open(w, "w").write("#!/bin/sh\nexec %s %s \"$@\"\n" % (v.runner[0], exe)); os.chmod(w, 0o755); exe = w
        jobs += [dict(label="%s" % n, cmd=[drv, "explore", exe, s], replay=lambda s: [drv, "replay", s], env=dict(VERIF_SCRATCH=scratch, **({"VERIF_EMU": "1"} if v.emu else {}))) for s in S]
    try: c.jobs(jobs)
    finally: shutil.rmtree(scratch, ignore_errors=True)
    c.cov.pop("completed_jobs", None)
    c.assumptions.append("the lengths stated; the memory of a process is its maximal resident set, of which it may take 64 MiB")
    return c

CHECKS = {"C24": c24}
