"""C19: every build configuration. All subsets of the codecs, compiled from the
current tree; builds by the Makefile and by CMake themselves."""
import itertools
from .core import *

def subset_name(have): return "+".join(have) or "none"

class Build:
    """One toolchain; compiles each file once per distinct preprocessed text."""
    def __init__(self, tag, cc, codecs, cflags=(), runner=(), emu=0, opt="-O2", host=True):
        self.tag, self.cc, self.codecs, self.cflags, self.runner, self.emu, self.opt = tag, cc, codecs, list(cflags), list(runner), emu, opt
    def prepare(self, c):
        self.dir = os.path.join(BUILD, "conf-%s-%s" % (self.tag, hashlib.sha256((tree_hash("lib", "include", "CMakeLists.txt", "cmake") + repr((self.cc, self.cflags, self.opt, REPO))).encode()).hexdigest()[:16]))
        os.makedirs(self.dir, exist_ok=True)
        h = hashlib.sha256(b"".join(open(os.path.join(HARN, f), "rb").read() for f in ("libmc.c", "ref.h"))).hexdigest()[:12]
        self.harness = os.path.join(self.dir, "libmc-%s.o" % h)
        if not os.path.exists(self.harness):
            tmp = self.harness + ".tmp%d" % os.getpid()
            must([self.cc, "-O2", "-w", "-DBASE64_STATIC_DEFINE", "-I", os.path.join(REPO, "include"), "-I", HARN, "-c", os.path.join(HARN, "libmc.c"), "-o", tmp], "compiling the harness")
            os.rename(tmp, self.harness)
    def obj(self, src, have, cdir):
        m = re.match(r"lib/arch/(\w+)/", src)
        arch = m.group(1) if m else None
        fl = list(self.cflags)
        if arch in SIMD_FLAGS and arch in have: fl += SIMD_FLAGS[arch]
        if arch == "neon32" and "neon32" in have: fl += ["-mfpu=neon"]
        base = [self.cc, "-std=c99", self.opt, "-DNDEBUG", "-DBASE64_STATIC_DEFINE", "-w"] + fl
        r = run(base + ["-I", cdir, "-I", os.path.join(REPO, "include"), "-I", os.path.join(REPO, "lib"), "-E", "-P", os.path.join(REPO, src)])
        if r.returncode: raise CheckError(r.stdout[-1500:])
        h = hashlib.sha256((repr(base) + r.stdout).encode()).hexdigest()[:20]
        o = os.path.join(self.dir, "o-%s.o" % h)
        if not os.path.exists(o):
            t = "%s.%d-%s" % (o, os.getpid(), hashlib.sha256(cdir.encode()).hexdigest()[:8])
            r = run(base + ["-I", cdir, "-I", os.path.join(REPO, "include"), "-I", os.path.join(REPO, "lib"), "-c", os.path.join(REPO, src), "-o", t])
            if r.returncode: raise CheckError(r.stdout[-1500:])
            os.rename(t, o)
        return o
    def link(self, have):
        """-> (executable, None) or (None, why not)"""
        cdir = os.path.join(self.dir, "c-" + subset_name(have))
        os.makedirs(cdir, exist_ok=True)
        with open(os.path.join(cdir, "config.h.%d" % os.getpid()), "w") as f: f.write(config_h(have))
        os.rename(os.path.join(cdir, "config.h.%d" % os.getpid()), os.path.join(cdir, "config.h"))
        try: objs = [self.obj(s, have, cdir) for s in lib_sources()]
        except CheckError as e: return None, str(e)
        exe = os.path.join(cdir, "x-%s" % hashlib.sha256(repr((objs, self.harness)).encode()).hexdigest()[:16])
        if not os.path.exists(exe):
            t = "%s.%d" % (exe, os.getpid())
            r = run([self.cc, "-static", self.harness] + objs + ["-o", t] + (["-fopenmp"] if "-fopenmp" in self.cflags else []))
            if r.returncode: return None, r.stdout[-1500:]
            os.rename(t, exe)
        return exe, None

MAKE_FLAGS = dict(AVX512="-mavx512vl -mavx512vbmi", AVX2="-mavx2", SSSE3="-mssse3", SSE41="-msse4.1", SSE42="-msse4.2", AVX="-mavx")

# builds by CMake for every supported target: (label, compiler, CMAKE_SYSTEM_PROCESSOR, further options, codecs to be had).
# Without options a build has every codec of its target, but for NEON32, which is opt-in.
CROSS = [("x86-64, default options", "gcc", None, [], X86),
         ("x86-64, default options, clang", "clang", None, [], X86),
         ("x86-64, OpenMP", "gcc", None, ["-DBASE64_WITH_OpenMP=ON"], X86),
         ("i686, default options", "/usr/bin/i686-linux-gnu-gcc", "i686", [], X86),
         ("i686, no codecs", "/usr/bin/i686-linux-gnu-gcc", "i686", ["-DBASE64_WITH_%s=OFF" % x.upper() for x in X86], []),
         ("aarch64, default options", "/usr/bin/aarch64-linux-gnu-gcc", "aarch64", [], ["neon64"]),
         ("aarch64, OpenMP", "/usr/bin/aarch64-linux-gnu-gcc", "aarch64", ["-DBASE64_WITH_OpenMP=ON"], ["neon64"]),
         ("aarch64, no NEON64", "/usr/bin/aarch64-linux-gnu-gcc", "aarch64", ["-DBASE64_WITH_NEON64=OFF"], []),
         ("armhf, NEON32", "/usr/bin/arm-linux-gnueabihf-gcc", "armv7l", ["-DBASE64_WITH_NEON32=ON"], ["neon32"]),
         ("armhf, default options", "/usr/bin/arm-linux-gnueabihf-gcc", "armv7l", [], []),
         ("s390x, default options", "/usr/bin/s390x-linux-gnu-gcc", "s390x", [], []),
         # asking for codecs that the target cannot have must not break the build
         ("s390x, all codecs asked for", "/usr/bin/s390x-linux-gnu-gcc", "s390x", ["-DBASE64_WITH_%s=ON" % x.upper() for x in X86 + ["neon32", "neon64"]], []),
         ("aarch64, all codecs asked for", "/usr/bin/aarch64-linux-gnu-gcc", "aarch64", ["-DBASE64_WITH_%s=ON" % x.upper() for x in X86 + ["neon32", "neon64"]], ["neon64"]),
         ("x86-64, all codecs asked for", "gcc", None, ["-DBASE64_WITH_%s=ON" % x.upper() for x in X86 + ["neon32", "neon64"]], X86)]

# and by the Makefile: (label, compiler, prefix of the binary utilities, further variables, codecs)
CROSS += [("x86-64, make OPENMP=1", "gcc", "", ["OPENMP=1"], X86), ("x86-64, make CC=clang", "clang", "", [], X86),
          ("i686, make", "/usr/bin/i686-linux-gnu-gcc", "i686-linux-gnu-", [], X86),
          ("aarch64, make", "/usr/bin/aarch64-linux-gnu-gcc", "aarch64-linux-gnu-", [], ["neon64"]),
          ("aarch64, make, no NEON64", "/usr/bin/aarch64-linux-gnu-gcc", "aarch64-linux-gnu-", [], []),
          ("armhf, make", "/usr/bin/arm-linux-gnueabihf-gcc", "arm-linux-gnueabihf-", [], ["neon32"]),
          ("s390x, make", "/usr/bin/s390x-linux-gnu-gcc", "s390x-linux-gnu-", [], [])]

def cross_build(c, k, harness):
    label, cc, cpu, opts, have = CROSS[k]
    d = os.path.join(BUILD, "confreal-cross%d-%d" % (k, os.getpid()))
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(REPO, d, ignore=shutil.ignore_patterns(".git", "_build", "build*", "*.o", "benchmark", ".github"), symlinks=True)
    try:
        if "make" in label:
            if os.path.exists(d + "/lib/config.h"): os.unlink(d + "/lib/config.h")
            env = {k: v for k, v in os.environ.items() if not k.endswith("_CFLAGS") and k not in ("MAKEFLAGS", "CFLAGS", "OPENMP", "CC", "LD", "OBJCOPY")}
            # as the README has it: codec flags in the environment, a nonempty stub for NEON64
            env.update(("%s_CFLAGS" % x.upper(), dict(MAKE_FLAGS, NEON64=" ", NEON32="-mfpu=neon")[x.upper()]) for x in have)
            env.update(o.split("=") for o in opts)
            must(["make", "-C", d, "CC=" + cc, "LD=%sld" % cpu, "OBJCOPY=%sobjcopy" % cpu], "make", env=env)
            if not os.path.exists(d + "/bin/base64"): raise CheckError("the command line utility is not built")
            exe = d + "-x"
            must([cc, "-static", harness, d + "/lib/libbase64.o", "-o", exe] + (["-fopenmp"] if "OPENMP" in label else []), "linking the library made by make")
            return exe
        must(["cmake", "-S", d, "-B", d + "/cm", "-DCMAKE_BUILD_TYPE=Release", "-DBASE64_BUILD_TESTS=OFF", "-DBASE64_WERROR=OFF", "-DCMAKE_C_COMPILER=" + cc] + ([] if "OpenMP" in label else ["-DCMAKE_EXE_LINKER_FLAGS=-static"]) +
             (["-DCMAKE_SYSTEM_NAME=Linux", "-DCMAKE_SYSTEM_PROCESSOR=" + cpu] if cpu else []) + opts, "cmake")
        must(["cmake", "--build", d + "/cm"], "cmake --build")
        if not os.path.exists(d + "/cm/bin/base64"): raise CheckError("the command line utility is not built")
        exe = d + "-x"
        must([cc, "-static", harness, d + "/cm/libbase64.a", "-o", exe] + (["-fopenmp"] if "OpenMP" in label else []), "linking the library made by cmake")
        return exe
    finally: shutil.rmtree(d, ignore_errors=True)

def real_build(c, how, have, harness):
    """The library made by the Makefile or by CMake; -> executable"""
    d = os.path.join(BUILD, "confreal-%s-%s-%d" % (how, subset_name(have), os.getpid()))
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(REPO, d, ignore=shutil.ignore_patterns(".git", "_build", "build*", "*.o", "benchmark", ".github"), symlinks=True)
    try:
        if how == "make":
            if os.path.exists(d + "/lib/config.h"): os.unlink(d + "/lib/config.h")
            env = {k: v for k, v in os.environ.items() if not k.endswith("_CFLAGS") and k not in ("MAKEFLAGS", "CFLAGS", "OPENMP")}
            for x in have: env[x.upper() + "_CFLAGS"] = MAKE_FLAGS[x.upper()]
            must(["make", "-C", d, "lib/libbase64.o"], "make", env=env)
            lib = [d + "/lib/libbase64.o"]
        else:
            shared = how == "cmake-shared"
            must(["cmake", "-S", d, "-B", d + "/cm", "-DCMAKE_BUILD_TYPE=Release", "-DBASE64_BUILD_TESTS=OFF", "-DBASE64_BUILD_CLI=OFF", "-DBASE64_WERROR=OFF", "-DBUILD_SHARED_LIBS=%s" % ("ON" if shared else "OFF")] +
                 ["-DBASE64_WITH_%s=%s" % (x.upper(), "ON" if x in have else "OFF") for x in X86], "cmake")
            must(["cmake", "--build", d + "/cm", "--target", "base64"], "cmake --build")
            lib = [d + "/cm/libbase64.a"]
            if shared:
                # the program finds the library by its path
                so = d + "-x.so"
                shutil.copyfile(os.path.realpath(must(["find", d + "/cm", "-name", "libbase64.so"], "find").split("\n")[0]), so)
                name = re.search(r"SONAME.*\[(.*)\]", must(["readelf", "-d", so], "readelf")).group(1)
                os.makedirs(d + "-x.lib", exist_ok=True)
                os.rename(so, d + "-x.lib/" + name)
                lib = [d + "-x.lib/" + name, "-Wl,-rpath," + d + "-x.lib"]
        exe = d + "-x"
        if how == "cmake-shared":
            must(["gcc", harness] + lib + ["-o", exe], "linking with the shared library")
            return exe
        must(["gcc", "-static", harness] + lib + ["-o", exe], "linking the library made by " + how)
        return exe
    finally: shutil.rmtree(d, ignore_errors=True)

def c19(prop="C19"):
    c = Check(prop)
    A64, A32, S390 = "/usr/bin/aarch64-linux-gnu-gcc", "/usr/bin/arm-linux-gnueabihf-gcc", "/usr/bin/s390x-linux-gnu-gcc"
    subsets = [[x for i, x in enumerate(X86) if m >> i & 1] for m in range(64)]
    few = [s for s in subsets if len(s) in (0, 1, 5, 6)]
    builds = [(Build("gcc", "gcc", X86), subsets), (Build("gcc-noasm", "gcc", X86, NOASM), subsets if c.thorough else few),
              (Build("clang", "clang", X86), subsets if c.thorough else few), (Build("i686", "/usr/bin/i686-linux-gnu-gcc", X86), subsets if c.thorough else few),
              (Build("openmp", "gcc", X86, ["-fopenmp"]), few),
              (Build("native", "gcc", X86, ["-march=native"]), few),
              (Build("aarch64", A64, ["neon64"], runner=["/usr/bin/qemu-aarch64"], emu=1), [[], ["neon64"]]),
              (Build("armhf", A32, ["neon32"], ["-mfpu=neon"], runner=["/usr/bin/qemu-arm"], emu=1), [[], ["neon32"]]),
              (Build("s390x", S390, [], runner=["/usr/bin/qemu-s390x"], emu=1), [[]])]
    if c.thorough: builds += [(Build("gcc-O3", "gcc", X86, opt="-O3"), subsets), (Build("gcc-O0", "gcc", X86, opt="-O0"), subsets), (Build("clang-O3", "clang", X86, opt="-O3"), subsets)]
    list(c.pool.map(lambda b: b[0].prepare(c), builds))
    todo = [(b, s) for b, ss in builds for s in ss]
    jobs, failed, n = [], [], 0
    # first those that between them need every object, so that it is compiled once
    todo.sort(key=lambda t: len(t[1]) not in (0, len(t[0].codecs)))
    first = [t for t in todo if len(t[1]) in (0, len(t[0].codecs))]
    def one(t): return t, t[0].link(t[1])
    res = list(c.pool.map(one, first)) + list(c.pool.map(one, todo[len(first):]))
    def add(label, have, exe, runner, emu):
        names = ["plain"] + have
        for codec in ["default"] + names:
            if not cpu_has(codec) or (emu and codec == "default"): continue
            jobs.append(dict(label="%s/%s" % (label, codec), cmd=runner + [exe, "explore", "C19", "quick", codec, ",".join(names), str(emu)], env={"OMP_NUM_THREADS": "3"},
                             replay=lambda s: runner + [exe, "replay", s]))
        jobs.append(dict(label="%s/codecs left out" % label, cmd=runner + [exe, "explore", "C19", "quick", "stubs", ",".join(names), str(emu)], env={"OMP_NUM_THREADS": "3"},
                         replay=lambda s: runner + [exe, "replay", s]))
    ok = {}
    for (b, s), (exe, why) in res:
        n += 1
        if exe is None: failed.append((b, s, why)); continue
        ok[b.tag] = ok.get(b.tag, 0) + 1
        add("%s with %s" % (b.tag, subset_name(s)), s, exe, b.runner, b.emu)
    for b, s, why in failed:
        # if nothing compiles with a toolchain then that is not the subset's fault
        if b.tag not in ok: raise CheckError("%s compiles nothing: %s" % (b.tag, why))
        c.violation("%s: the library with %s does not build: %s" % (b.tag, subset_name(s), why.strip().splitlines()[0][:200]),
                    dict(cmd=[sys.executable, os.path.join(VERIF, "check"), "C19"], label=why[-800:]))
        if len(c.viol) > 3: break
    real = [("make", s) for s in few] + [("cmake", s) for s in (subsets if c.thorough else few)] + [("cmake-shared", s) for s in subsets if len(s) in (0, 6)]
    exes, broken, works = [], [], set()
    for f in os.listdir(BUILD):
        q = os.path.join(BUILD, f)
        if f.startswith("confreal-") and time.time() - os.path.getmtime(q) > 3600: shutil.rmtree(q) if os.path.isdir(q) else os.unlink(q)
    if not c.viol:
        gcc = builds[0][0]
        def rb(t):
            try: return t, real_build(c, t[0], t[1], gcc.harness), None
            except (CheckError, OSError, AttributeError) as e: return t, None, str(e)
        for (how, s), exe, why in c.pool.map(rb, real):
            n += 1
            if exe is None: broken.append((how, s, why)); continue
            exes.append(exe); works.add(how.split("-")[0])
            add("made by %s with %s" % (how, subset_name(s)), s, exe, [], 0)
        byname = {"gcc": builds[0][0]}
        for b, _ in builds:
            if b.tag in ("i686", "aarch64", "armhf", "s390x", "clang"): byname[b.cc] = b
        def cb(k):
            try: return k, cross_build(c, k, byname[CROSS[k][1]].harness), None
            except (CheckError, OSError, AttributeError) as e: return k, None, str(e)
        for k, exe, why in c.pool.map(cb, range(len(CROSS))):
            n += 1
            label, cc, _, _, s = CROSS[k]
            if exe is None:
                if ("make" if "make" in label else "cmake") not in works: raise CheckError("%s: %s" % (label, why))
                if len(c.viol) < 3: c.violation("does not build for %s: %s" % (label, why.strip()[-200:]), dict(cmd=[sys.executable, os.path.join(VERIF, "check"), "C19"], label=why[-800:]))
                continue
            exes.append(exe)
            add("made for " + label, s, exe, byname[cc].runner, byname[cc].emu)
        for how, s, why in broken:
            if how.split("-")[0] not in works: raise CheckError("%s with %s: %s" % (how, subset_name(s), why))
            if len(c.viol) < 3: c.violation("%s does not build the library with %s" % (how, subset_name(s)), dict(cmd=[sys.executable, os.path.join(VERIF, "check"), "C19"], label=why[-800:]))
    c.cov["builds"] = n
    c.jobs(jobs)
    c.cov.pop("completed_jobs", None)
    if not c.viol:
        for e in exes:
            os.unlink(e); shutil.rmtree(e + ".lib", ignore_errors=True)
    c.assumptions += ["all 64 subsets of the x86 codecs with gcc; with the other toolchains and with the Makefile and CMake those of none, one, five and six codecs (thorough: all)",
                      "in each build, each codec gets a digest of C01 to C04, and each codec that is left out must answer as a missing one"]
    return c

CHECKS = {"C19": c19}
