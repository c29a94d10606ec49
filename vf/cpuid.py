"""C07: the codec choice on every CPU of a bounded family."""
from .core import *
from .configs import Build, subset_name

LIBSECT = ["--rename-section", ".bss=libbss,alloc,load,contents,data", "--rename-section", ".data=libdata,alloc,load,contents,data"]

def trap_cpuid(obj, objdump="objdump", readelf="readelf"):
    """Replaces cpuid with ud2 and xgetbv with ud0 in an object file; returns how many."""
    off = {}
    for l in must([readelf, "-SW", obj], "readelf").splitlines():
        m = re.match(r"\s*\[\s*\d+\]\s+(\S+)\s+PROGBITS\s+(\w+)\s+(\w+)", l)
        if m: off[m.group(1)] = int(m.group(3), 16)
    data = bytearray(open(obj, "rb").read())
    n, sec = 0, None
    for l in must([objdump, "-d", "-w", obj], "objdump").splitlines():
        m = re.match(r"Disassembly of section (\S+):", l)
        if m: sec = m.group(1); continue
        m = re.match(r"\s*([0-9a-f]+):\t([0-9a-f ]+)\t\s*(\S+)", l)
        if not m or m.group(3) not in ("cpuid", "xgetbv"): continue
        o = off[sec] + int(m.group(1), 16)
        b = bytes.fromhex(m.group(2).replace(" ", ""))
        assert bytes(data[o:o + len(b)]) == b
        data[o:o + len(b)] = b"\x0f\x0b" if m.group(3) == "cpuid" else b"\x0f\xff\xd0"
        n += 1
    open(obj, "wb").write(data)
    return n

def core_sources():
    """The library without its codecs."""
    return [s for s in lib_sources() if not s.startswith("lib/arch/")]

def build_core(tag, cc, have, harness, cflags=(), trap=True, arm=False, harness_flags=(), ldflags=("-static",), objcopy="objcopy"):
    """The library's core with a harness that brings its own codecs; returns the executable."""
    h = hashlib.sha256(repr((tree_hash("lib", "include", "CMakeLists.txt", "cmake"), tag, cc, sorted(have), cflags, harness_flags, ldflags, REPO)).encode())
    for f in sorted(os.listdir(HARN)): h.update(open(os.path.join(HARN, f), "rb").read())
    h.update(open(__file__, "rb").read())
    d = os.path.join(BUILD, "core-%s-%s" % (tag, h.hexdigest()[:16]))
    exe = os.path.join(d, "x")
    if os.path.exists(exe): return exe
    tmp = d + ".tmp%d" % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    open(os.path.join(tmp, "config.h"), "w").write(config_h(have))
    objs, n = [], 0
    for s in core_sources():
        o = os.path.join(tmp, s.replace("/", "_")[:-2] + ".o")
        must([cc] + BASE + ["-O1", "-D__thread=", "-D_Thread_local=", "-fno-common"] + list(cflags) + ["-I", tmp, "-I", os.path.join(REPO, "include"),
             "-I", os.path.join(REPO, "lib"), "-c", os.path.join(REPO, s), "-o", o], "compiling " + s)
        if trap: n += trap_cpuid(o)
        must([objcopy] + LIBSECT + [o], "objcopy")
        objs.append(o)
    must([cc, "-O2", "-g", "-w", "-DBASE64_STATIC_DEFINE", "-I", os.path.join(REPO, "include"), "-I", HARN] + list(harness_flags) +
         [os.path.join(HARN, harness)] + objs + ["-o", os.path.join(tmp, "x")] + list(ldflags), "linking " + harness)
    shutil.rmtree(d, ignore_errors=True)
    try: os.rename(tmp, d)
    except OSError: shutil.rmtree(tmp, ignore_errors=True)
    return exe

# CPUs that have no more than a codec needs (-msse4.2 lets compilers use popcnt)
LEVELS = [("plain", "qemu64"), ("ssse3", "qemu64,+ssse3"), ("sse41", "qemu64,+ssse3,+sse4.1"), ("sse42", "qemu64,+ssse3,+sse4.1,+sse4.2,+popcnt"),
          ("avx", "qemu64,+ssse3,+sse4.1,+sse4.2,+popcnt,+xsave,+avx"), ("avx2", "qemu64,+ssse3,+sse4.1,+sse4.2,+popcnt,+xsave,+avx,+avx2")]

def isa_jobs(c):
    """The library itself on emulated CPUs that know the instructions of one codec and no more: that codec, those below it and the default have to run."""
    A32 = "/usr/bin/arm-linux-gnueabihf-gcc"
    subsets = [[x for i, x in enumerate(X86) if m >> i & 1] for m in range(64)]
    few = [s for s in subsets if len(s) in (0, 1, 5, 6)]
    full = [list(X86)]
    builds = [(Build("gcc", "gcc", X86), subsets if c.thorough else few), (Build("gcc-noasm", "gcc", X86, NOASM), few if c.thorough else full),
              (Build("clang", "clang", X86), few if c.thorough else full), (Build("i686", "/usr/bin/i686-linux-gnu-gcc", X86), few if c.thorough else full + [[]]),
              (Build("armhf-d16", A32, ["neon32"], ["-mfpu=vfpv3-d16"]), [[], ["neon32"]])]
    list(c.pool.map(lambda b: b[0].prepare(c), builds))
    todo = [(b, s) for b, ss in builds for s in ss]
    todo.sort(key=lambda t: -len(t[1]))
    jobs = []
    def one(t):
        b, s = t
        exe, why = b.link(s)
        if exe is None: raise CheckError("%s with %s does not build: %s" % (b.tag, subset_name(s), why))
        return b, s, exe
    def add(b, s, exe, qemu, cpu, codec):
        r = ["/usr/bin/" + qemu, "-cpu", cpu]
        names = ["plain"] + s
        jobs.append(dict(label="%s with %s on %s, %s" % (b.tag, subset_name(s), cpu, codec), cmd=r + [exe, "explore", "C19", "quick", codec, ",".join(names), "1"],
                         replay=lambda x: r + [exe, "replay", x]))
    first = [t for t in todo if len(t[1]) == len(t[0].codecs)]
    for b, s, exe in list(c.pool.map(one, first)) + list(c.pool.map(one, [t for t in todo if t not in first])):
        if b.tag == "armhf-d16":
            for codec in ["plain"] + ([] if s else ["default"]): add(b, s, exe, "qemu-arm", "cortex-a9,neon=off,vfp-d32=off", codec)
            continue
        qemu, lv = "qemu-x86_64", LEVELS
        if b.tag == "i686": qemu, lv = "qemu-i386", [("plain", "pentium2")] + [(x, y.replace("qemu64", "qemu32")) for x, y in LEVELS]
        for codec, cpu in lv:
            add(b, s, exe, qemu, cpu, "default")
            if s == list(X86): add(b, s, exe, qemu, cpu, codec)
    return jobs

def c07(prop="C07"):
    c = Check(prop)
    todo = []
    for arch, cc in (("x86_64", "gcc"), ("i686", "/usr/bin/i686-linux-gnu-gcc"), ("x86_64clang", "clang")):
        for m in range(64):
            if arch != "x86_64" and not c.thorough and m not in (0, 63, 1, 2, 4, 8, 16, 32, 31, 0x3e, 0x2f): continue
            todo.append((arch, cc, m))
    def one(t):
        arch, cc, m = t
        have = [x for i, x in enumerate(X86) if m >> i & 1]
        return t, build_core("cpu-%s-%02x" % (arch, m), cc, have, "cpuid.c")
    jobs = []
    for (arch, cc, m), exe in c.pool.map(one, todo):
        jobs.append(dict(label="%s with %s" % (arch, ",".join(x for i, x in enumerate(X86) if m >> i & 1) or "no SIMD codec"),
                         cmd=[exe, "explore", "%x" % (m << 1), "4" if c.thorough else "2"], replay=lambda s, e=exe: [e, "replay", s]))
    n = len(jobs)
    isa = isa_jobs(c)
    c.jobs(jobs + isa)
    c.cov.pop("completed_jobs", None)
    c.cov["builds"] = n
    c.cov["runs_on_emulated_cpus"] = len(isa)
    c.assumptions += ["CPUID is read with the cpuid instruction and XCR0 with xgetbv, in the library's own objects (both are replaced with traps)",
                      "the feature bits that matter are SSSE3, SSE4.1, SSE4.2, OSXSAVE, AVX, AVX2, AVX512VL, AVX512VBMI and XCR0 bits 1, 2, 5, 6, 7; the others are all 0 (except those that these imply) or all 1",
                      "optimal choice is required on consistent CPUs only; safety on all"]
    return c

CHECKS = {"C07": c07}
