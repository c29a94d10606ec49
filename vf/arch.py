"""C26: other architectures. The library compiled by Clang for everything that
lld can link and qemu-user (or node, for WebAssembly) can run, freestanding."""
from .core import *

ARCH = os.path.join(VERIF, "arch")
N = ["BASE64_FORCE_NEON32"]; N64 = ["BASE64_FORCE_NEON64"]
MIPS = ["-mno-abicalls", "-G0"]
# name: emulator, target, flags, codecs beyond plain
TARGETS = [("ppc", ["qemu-ppc"], "powerpc-linux-gnu", [], []),
           ("ppc64", ["qemu-ppc64"], "powerpc64-linux-gnu", ["-mabi=elfv2"], []),
           ("ppc64le", ["qemu-ppc64le"], "powerpc64le-linux-gnu", [], []),
           ("mips", ["qemu-mips"], "mips-linux-gnu", MIPS, []),
           ("mipsel", ["qemu-mipsel"], "mipsel-linux-gnu", MIPS, []),
           ("mips64", ["qemu-mips64"], "mips64-linux-gnuabi64", MIPS, []),
           ("mips64el", ["qemu-mips64el"], "mips64el-linux-gnuabi64", MIPS, []),
           ("mipsn32", ["qemu-mipsn32"], "mips64-linux-gnuabin32", MIPS, []),
           ("riscv32", ["qemu-riscv32"], "riscv32-linux-gnu", ["-march=rv32imac", "-mabi=ilp32"], []),
           ("riscv64", ["qemu-riscv64"], "riscv64-linux-gnu", ["-march=rv64gc"], []),
           ("sparc64", ["qemu-sparc64"], "sparc64-linux-gnu", [], []),
           ("loongarch64", ["qemu-loongarch64"], "loongarch64-linux-gnu", [], []),
           ("hexagon", ["qemu-hexagon"], "hexagon-linux-musl", ["-G0"], []),
           ("armv5", ["qemu-arm", "-cpu", "arm926"], "armv5te-linux-gnueabi", ["-mfloat-abi=soft"], []),
           ("armv6", ["qemu-arm", "-cpu", "arm1136"], "armv6-linux-gnueabi", ["-mfloat-abi=soft"], []),
           ("armv7-thumb", ["qemu-arm"], "armv7-linux-gnueabi", ["-mthumb", "-mfloat-abi=softfp", "-mfpu=neon"], N),
           ("armeb", ["qemu-armeb"], "armeb-linux-gnueabi", ["-march=armv7-a", "-mfloat-abi=soft"], []),
           ("armeb-neon", ["qemu-armeb"], "armeb-linux-gnueabi", ["-march=armv7-a", "-mfloat-abi=softfp", "-mfpu=neon"], N),
           ("aarch64", ["qemu-aarch64"], "aarch64-linux-gnu", [], N64),
           ("aarch64-strict", ["qemu-aarch64"], "aarch64-linux-gnu", ["-mstrict-align"], N64),
           ("aarch64_be", ["qemu-aarch64_be"], "aarch64_be-linux-gnu", [], N64),
           ("aarch64_be-plain", ["qemu-aarch64_be"], "aarch64_be-linux-gnu", [], []),
           ("wasm32", ["node"], "wasm32-unknown-unknown", [], []),
           ("x86-64", [], "x86_64-linux-gnu", [], [])]
CHARS = [[], ["-fsigned-char"], ["-funsigned-char"]]

class Skip(Exception): pass

def build(c, t, opt, extra, deep):
    name, emu, target, flags, codecs = t
    fl = ["--target=" + target, opt] + flags + extra
    key = hashlib.sha256(repr((tree_hash("lib", "include", "CMakeLists.txt", "cmake"), fl, codecs, deep, [open(os.path.join(ARCH, f), "rb").read() for f in ("arch.c", "sys.h")],
                               open(os.path.join(HARN, "ref.h")).read(), REPO)).encode()).hexdigest()[:16]
    d = os.path.join(BUILD, "arch-%s-%s" % (name, key))
    exe = os.path.join(d, "x.wasm" if "wasm" in target else "x")
    if os.path.exists(exe): return exe
    t = d + ".tmp%d" % os.getpid()
    shutil.rmtree(t, ignore_errors=True); os.makedirs(t)
    have = [x[len("BASE64_FORCE_"):].lower() for x in codecs]
    open(t + "/config.h", "w").write(config_h(have))
    base = ["clang", "-w", "-nostdlibinc", "-isystem", ARCH + "/include", "-ffunction-sections", "-fdata-sections", "-fno-stack-protector", "-fno-pic", "-DBASE64_STATIC_DEFINE", "-I", os.path.join(REPO, "include")] + fl
    must(base + ["-O1", "-std=gnu99", "-I", HARN] + (["-DDEEP"] if deep else []) + ["-DCODECS=" + ",".join(["0", "BASE64_FORCE_PLAIN"] + codecs), "-c", ARCH + "/arch.c", "-o", t + "/arch.o"], "compiling the harness for " + name)
    for i, s in enumerate(lib_sources()):
        r = run(base + ["-std=c99", "-DNDEBUG", "-I", t, "-I", os.path.join(REPO, "lib"), "-c", os.path.join(REPO, s), "-o", "%s/l%d.o" % (t, i)])
        if r.returncode:
            # what is missing here may just be missing in the headers made for this check
            if re.search(r"file not found|undeclared|implicit|unknown type name|undefined", r.stdout): raise Skip("%s: %s" % (name, r.stdout.strip().splitlines()[0][:200]))
            raise CheckError("%s does not compile for %s: %s" % (s, name, r.stdout.strip().splitlines()[0][:200]))
    o = sorted(os.path.join(t, f) for f in os.listdir(t) if f.endswith(".o"))
    link = ["lld", "-flavor", "wasm", "--no-entry"] if "wasm" in target else ["lld", "-flavor", "gnu", "-e", "_start", "--gc-sections", "-static"]
    r = run(link + o + ["-o", t + "/" + os.path.basename(exe)])
    if r.returncode:
        if "undefined symbol" in r.stdout: raise Skip("%s: %s" % (name, r.stdout.strip().splitlines()[0][:200]))
        raise CheckError("linking for %s: %s" % (name, r.stdout[-500:]))
    shutil.rmtree(d, ignore_errors=True)
    os.rename(t, d)
    return exe

def c26(prop="C26"):
    c = Check(prop)
    for f in os.listdir(BUILD):
        q = os.path.join(BUILD, f)
        if f.startswith("arch-") and time.time() - os.path.getmtime(q) > 7200: shutil.rmtree(q, ignore_errors=True)
    opts = ["-O0", "-O1", "-O2", "-O3", "-Os"] if c.thorough else ["-O2"]
    todo = [(t, o, ch) for t in TARGETS for o in opts for ch in (CHARS[1:] if o == "-O2" else CHARS[:1])]
    def mk(x):
        try: return x, build(c, x[0], x[1], x[2], c.thorough), None
        except (Skip, CheckError) as e: return x, None, e
    jobs, broken, skipped = [], {}, []
    for (t, o, ch), exe, why in c.pool.map(mk, todo):
        if isinstance(why, Skip): skipped.append(str(why)); continue
        if why: broken.setdefault(t[0], str(why)); continue
        cmd = ["node", ARCH + "/run.js", exe] if "wasm" in t[2] else t[1] + [exe]
        jobs.append(dict(label=" ".join([t[0], o] + ch), cmd=cmd, replay=lambda s, cmd=cmd: cmd))
    if not jobs and broken: raise CheckError(sorted(broken.values())[0])
    for name, why in sorted(broken.items())[:3]:
        c.violation("the library does not compile for %s: %s" % (name, why), dict(cmd=[sys.executable, os.path.join(VERIF, "check"), c.prop], label=why))
    c.jobs(jobs)
    c.cov["architectures"] = len({j["label"].split()[0] for j in jobs})
    if skipped: c.assumptions.append("left out, as the library asks for more of a C library than this check provides: " + "; ".join(sorted(set(skipped))[:4]))
    c.assumptions += ["Clang 18's code for %d targets, run by qemu-user (WebAssembly by node); no C library: memcpy() and memset() are this check's" % c.cov["architectures"],
                      "qemu raises the alignment faults of the targets that have them in its user mode (SPARC; MIPS and ARM only in part)"]
    return c

CHECKS = {"C26": c26}
