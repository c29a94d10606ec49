"""C25: the number of instructions that calls take."""
from .core import *
from .huge import FLAG

# what a codec may take, in thousandths of the plain codec's instructions for a byte and as
# instructions for a call: one and a half times of what it takes, and more; encoding, decoding
LIMIT = {"plain": (1300, 700, 1300, 700), "ssse3": (720, 900, 850, 1100), "sse41": (720, 900, 850, 1100), "sse42": (720, 900, 850, 1100), "avx": (600, 900, 750, 1100),
         "avx2": (400, 1400, 450, 2100), "avx512": (200, 2900, 450, 2300)}
NEON = {"neon64": (300, 600), "neon32": (780, 900)}

# what the plain codec may take, in thousandths of an instruction for a byte; byte by byte it takes more
CAP = (8000, 8000)

def emulated(c, v, exe, codec, limit):
    """A codec under qemu: it prints a line for each instruction."""
    top = os.path.join(BUILD, "cost-%d-%s-%s" % (os.getpid(), v.name, codec))
    os.makedirs(top, exist_ok=True)
    def count(d, n, f):
        log = "%s/%d-%d-%d" % (top, d, n, f)
        rc = subprocess.run(v.runner + ["-one-insn-per-tb", "-d", "nochain,exec", "-D", log, exe, "once", str(d), str(n), str(f)], timeout=300).returncode
        if rc: raise CheckError("%s under %s ends with %d" % (exe, v.runner[0], rc))
        with open(log, "rb") as fh: k = sum(1 for l in fh if l.startswith(b"Trace"))
        os.unlink(log)
        if not k: raise CheckError("%s prints no trace" % v.runner[0])
        c.add(1, 1, 1)
        return k
    try:
        for d in (0, 1):
            near, far, odd = ((768, 6144, 4801), (1024, 8192, 4804))[d]
            unit = (count(d, far, 8) - count(d, near, 8)) / (far - near)
            k = {n: count(d, n, FLAG[codec]) for n in (near, far, odd)}
            if unit * 1000 > CAP[d]:
                c.violation("%s/plain: %s takes %.2f instructions for a byte" % (v.name, ("encoding", "decoding")[d], unit), dict(cmd=[sys.executable, os.path.join(VERIF, "check"), c.prop], label=v.name))
                return
            got = (k[far] - k[near]) / (far - near)
            c.sample("%s/%s: %s %.3f instructions for a byte, plain codec %.3f" % (v.name, codec, ("encoding", "decoding")[d], got, unit))
            over = k[odd] - k[near]
            if got * 1000 > limit[d] * unit or over > limit[d] * unit / 1000 * (odd - near) + 2500:
                c.violation("%s/%s: %s takes %.2f instructions for a byte, the plain codec takes %.2f; %d bytes take %d more than %d bytes" % (v.name, codec, ("encoding", "decoding")[d], got, unit, odd, over, near),
                            dict(cmd=[sys.executable, os.path.join(VERIF, "check"), c.prop], label="%s/%s" % (v.name, codec)))
                return
    finally: shutil.rmtree(top, ignore_errors=True)

def c25(prop="C25"):
    c = Check(prop)
    vs = c.build(["gcc", "gcc-noasm", "clang", "i686", "aarch64", "armhf"] + (["aarch64-noasm", "armhf-noasm"] + (["clang-noasm"] if c.thorough else [])))
    exe = {n: c.link(v, "cost.c", "cost") for n, v in vs.items()}
    jobs, emu = [], []
    best = [x for x in X86 if cpu_has(x)][-1:]
    for n, v in vs.items():
        for k in v.codecs:
            if v.emu:
                if k in NEON: emu.append((v, exe[n], k, NEON[k]))
                continue
            if not cpu_has(k): continue
            for flag in [FLAG[k]] + ([0] if [k] == best else []):
                jobs.append(dict(label="%s/%s" % (n, k if flag else "default"), cmd=[exe[n], "explore", str(flag)] + [str(x) for x in LIMIT[k]] + ["thorough" if c.thorough else "quick" if n in ("gcc", "i686") else "brief"],
                                 replay=lambda s, e=exe[n]: [e, "replay", s], env=dict(VERIF_CAP="%d,%d" % CAP)))
    f = [c.pool.submit(emulated, c, *t) for t in emu]
    c.jobs(jobs)
    for x in f: x.result()
    c.cov.pop("completed_jobs", None)
    c.assumptions.append("instructions are what is counted, not time; the plain codec of the same build is the measure")
    return c

CHECKS = {"C25": c25}
