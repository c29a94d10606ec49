"""C23: programs on the library. What the Makefile and CMake (static, shared,
installed) make, used by programs in every version of C and C++."""
from .core import *
from .configs import MAKE_FLAGS, subset_name

API = ["base64_encode", "base64_stream_encode", "base64_stream_encode_init", "base64_stream_encode_final", "base64_decode", "base64_stream_decode", "base64_stream_decode_init"]
SRC = os.path.join(VERIF, "consumer")
WARN = ["-Wall", "-Wextra", "-pedantic", "-Werror"]

# other targets: triplet, emulator, CMAKE_SYSTEM_PROCESSOR
TARGETS = dict(i686=("i686-linux-gnu", [], "i686"), aarch64=("aarch64-linux-gnu", ["/usr/bin/qemu-aarch64", "-L", "/usr/aarch64-linux-gnu"], "aarch64"),
               armhf=("arm-linux-gnueabihf", ["/usr/bin/qemu-arm", "-L", "/usr/arm-linux-gnueabihf"], "armv7l"), s390x=("s390x-linux-gnu", ["/usr/bin/qemu-s390x", "-L", "/usr/s390x-linux-gnu"], "s390x"))
CODEC_FLAGS = dict(MAKE_FLAGS, NEON64=" ", NEON32="-mfpu=neon")

def copy_repo(d):
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(REPO, d, ignore=shutil.ignore_patterns(".git", "_build", "build*", "*.o", "benchmark", ".github"), symlinks=True)

def product(top, kind, have):
    """-> dict(inc, libs, obj or so, prefix)"""
    d = os.path.join(top, "%s-%s" % (kind, subset_name(have)))
    copy_repo(d)
    kind, target = (kind.split("@") + [None])[:2]
    trip, emu, cpu = TARGETS[target] if target else ("", [], None)
    pre = "/usr/bin/" + trip + "-" if target else ""
    more = dict(target=target, pre=pre, emu=emu, cc=pre + "gcc", cmake=["-DCMAKE_SYSTEM_NAME=Linux", "-DCMAKE_SYSTEM_PROCESSOR=" + cpu, "-DCMAKE_C_COMPILER=" + pre + "gcc"] if target else [])
    if kind.startswith("make"):
        if os.path.exists(d + "/lib/config.h"): os.unlink(d + "/lib/config.h")
        env = {k: v for k, v in os.environ.items() if not k.endswith("_CFLAGS") and k not in ("MAKEFLAGS", "CFLAGS", "OPENMP", "CC", "LD", "OBJCOPY")}
        for x in have: env[x.upper() + "_CFLAGS"] = CODEC_FLAGS[x.upper()]
        if kind == "make-openmp": env["OPENMP"] = "1"
        must(["make", "-C", d, "all"] + (["CC=" + pre + "gcc", "LD=" + pre + "ld", "OBJCOPY=" + pre + "objcopy"] if target else []), "make", env=env)
        return dict(inc=d + "/include", libs=[d + "/lib/libbase64.o"] + (["-fopenmp"] if kind == "make-openmp" else []), obj=d + "/lib/libbase64.o", bin=d + "/bin/base64", prefix=None, **more)
    p = d + "/prefix"
    must(["cmake", "-S", d, "-B", d + "/cm", "-DCMAKE_BUILD_TYPE=Release", "-DBASE64_WERROR=OFF", "-DBASE64_BUILD_TESTS=OFF", "-DCMAKE_INSTALL_LIBDIR=lib", "-DCMAKE_INSTALL_PREFIX=" + p,
          "-DBUILD_SHARED_LIBS=%s" % ("ON" if kind == "cmake-shared" else "OFF")] + ["-DBASE64_WITH_%s=%s" % (x.upper(), "ON" if x in have else "OFF") for x in X86 + ["neon32", "neon64"]] + more["cmake"], "cmake")
    must(["cmake", "--build", d + "/cm"], "cmake --build")
    must(["cmake", "--install", d + "/cm"], "cmake --install")
    so = kind == "cmake-shared"
    return dict(inc=p + "/include", libs=[p + "/lib/libbase64.so", "-Wl,-rpath," + p + "/lib"] if so else [p + "/lib/libbase64.a"], so=p + "/lib/libbase64.so" if so else None, bin=p + "/bin/base64", prefix=p, **more)

def symbols(p):
    """The names that a product defines for others, or None."""
    if p.get("obj"): cmd = [p["pre"] + "nm", "-g", "--defined-only", p["obj"]]
    elif p.get("so"): cmd = [p["pre"] + "nm", "-D", "-g", "--defined-only", p["so"]]
    else: return None
    return sorted(l.split()[-1].split("@")[0] for l in must(cmd, "nm").splitlines() if len(l.split()) == 3 and l.split()[1] in "TDBRVWCGSi")

def readme_programs():
    """The example programs of README.md: the code blocks that have a main()."""
    f = os.path.join(REPO, "README.md")
    if not os.path.exists(f): return []
    return [b for b in re.findall(r"^```c\n(.*?)^```", open(f, errors="replace").read(), re.S | re.M) if "main" in b and "#include" in b]

def ran(cmd, **kw):
    r = run(cmd, timeout=kw.pop("timeout", 120), **kw)
    return r.returncode, r.stdout

def consume(c, name, p, top, langs):
    """-> number of programs; raises Broken"""
    n = 0
    for cc, std, defs in langs:
        # clang has no OpenMP library of its own here; the library was built by gcc
        libs = ["-lgomp" if cc == "clang" and l == "-fopenmp" else l for l in p["libs"]]
        cxx = "++" in std
        if p["target"]:
            # there are no C++ compilers for other targets here; Clang compiles it, GCC links (nothing of the C++ library is used)
            trip = TARGETS[p["target"]][0]
            comp = {"gcc": [p["cc"]], "clang": ["clang", "--target=" + trip]}[cc]
            x = comp
            link = [p["cc"]]
        else:
            x = {"gcc": ["g++"], "clang": ["clang++"]}[cc] if cxx else [cc]
            comp = [cc]; link = None
        e = os.path.join(top, "prog-%s-%s-%s%s" % (name, cc, std, "-s" if defs else ""))
        base = comp + ["-std=" + (std if not cxx else "c99"), "-O1"] + WARN + defs + ["-I", p["inc"], "-c", SRC + "/other.c", "-o", e + ".o"]
        what = "%s, %s -std=%s%s" % (name, " ".join(x), std, " " + defs[0] if defs else "")
        rc, out = ran(base)
        if rc: raise Broken("%s: the header does not compile without warnings: %s" % (what, err_line(out)), base)
        if link:
            cmd = x + (["-x", "c++"] if cxx else []) + ["-std=" + std, "-O1"] + WARN + defs + ["-I", p["inc"], "-c", SRC + "/main.c", "-o", e + "-m.o"]
            rc, out = ran(cmd)
            if rc: raise Broken("%s: a program does not compile: %s" % (what, err_line(out)), cmd)
            cmd = link + [e + "-m.o", e + ".o"] + libs + ["-o", e]
        else: cmd = x + (["-x", "c++"] if cxx else []) + ["-std=" + std, "-O1"] + WARN + defs + ["-I", p["inc"], SRC + "/main.c"] + (["-x", "none"] if cxx else []) + [e + ".o"] + libs + ["-o", e]
        rc, out = ran(cmd)
        if rc: raise Broken("%s: a program does not compile and link: %s" % (what, err_line(out)), cmd)
        rc, out = ran(p["emu"] + [e])
        v = [l.split("\t")[-1] for l in out.splitlines() if l.startswith("VIOL ")]
        if v or rc: raise Broken("%s: %s" % (what, v[0] if v else "the program ends with %d" % rc), p["emu"] + [e])
        for l in out.splitlines():
            if l.startswith("STAT impl_calls"): c.add(1, 1, int(l.split()[-1]))
        for f in (e, e + ".o", e + "-m.o"):
            if os.path.exists(f): os.unlink(f)
        n += 1
    return n

class Broken(Exception):
    def __init__(self, msg, cmd): Exception.__init__(self, msg); self.cmd = cmd
def err_line(out):
    l = [l for l in out.splitlines() if "error" in l or "undefined" in l] or out.splitlines() or [""]
    return l[0].strip()[:220]

def utility(name, p):
    data = bytes((i * 151 + i // 7) & 255 for i in range(5000))
    # an installed program is found its library by the loader's path, as the user's system would
    env = dict(os.environ, LD_LIBRARY_PATH=p["prefix"] + "/lib") if p["prefix"] and not p["emu"] else dict(os.environ, QEMU_SET_ENV="LD_LIBRARY_PATH=" + p["prefix"] + "/lib") if p["prefix"] else None
    for n in (0, 1, 2, 3, 57, 58, 5000):
        import base64 as ref
        for wrap in (None, 0, 20):
            w = 76 if wrap is None else wrap
            enc = ref.b64encode(data[:n])
            want = b"".join(enc[i:i + w] + b"\n" for i in range(0, len(enc), w)) if w else enc
            r = subprocess.run(p["emu"] + [p["bin"]] + ([] if wrap is None else ["-w", str(wrap)]), input=data[:n], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, env=env)
            if r.returncode or r.stdout != want: raise Broken("%s: the utility encodes %d bytes wrongly" % (name, n), [p["bin"]])
            r = subprocess.run(p["emu"] + [p["bin"], "-d"], input=want, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, env=env)
            if r.returncode or r.stdout != data[:n]: raise Broken("%s: the utility decodes %d bytes wrongly" % (name, n), [p["bin"]])

def readme(name, p, top):
    import base64 as ref
    for i, src in enumerate(readme_programs()):
        f = os.path.join(top, "readme-%s-%d" % (name, i))
        open(f + ".c", "w").write(src)
        cmd = [p["cc"], "-std=c99", "-O1", "-w", "-I", p["inc"], f + ".c"] + p["libs"] + ["-o", f]
        rc, out = ran(cmd)
        if rc: raise Broken("%s: an example of the README does not compile: %s" % (name, err_line(out)), cmd)
        m = re.search(r'src\[\] = "([^"\\]*)"', src)
        for n in ([0] if m else [0, 1, 2, 3, 4, 11999, 12000, 12001, 12002, 24000, 24001, 100000]):
            data = bytes((k * 151 + k // 7) & 255 for k in range(n))
            r = subprocess.run(p["emu"] + [f], input=data, stdout=subprocess.PIPE, timeout=60)
            want = ref.b64encode(m.group(1).encode() if m else data)
            if r.returncode or r.stdout != want: raise Broken("%s: example %d of the README gives a wrong result for %d bytes" % (name, i + 1, n), [f])

def package(name, p, top):
    """A project that finds the installed package."""
    d = os.path.join(top, "pkg-" + name); os.makedirs(d)
    open(d + "/CMakeLists.txt", "w").write("""cmake_minimum_required(VERSION 3.10)
project(consumer LANGUAGES C %(l)s)
find_package(base64 0.5 CONFIG REQUIRED)
add_executable(cprog %(s)s/main.c %(s)s/other.c)
target_link_libraries(cprog PRIVATE aklomp::base64)
""" % dict(s=SRC, l="" if p["target"] else "CXX") + ("" if p["target"] else """
configure_file(%(s)s/main.c main.cpp COPYONLY)
add_executable(cxxprog ${CMAKE_CURRENT_BINARY_DIR}/main.cpp %(s)s/other.c)
target_include_directories(cxxprog PRIVATE %(s)s)
target_link_libraries(cxxprog PRIVATE aklomp::base64)
""" % dict(s=SRC)))
    for cmd in (["cmake", "-S", d, "-B", d + "/b", "-Dbase64_DIR=" + p["prefix"] + "/lib/cmake/base64", "-DCMAKE_PREFIX_PATH=" + p["prefix"]] + p["cmake"], ["cmake", "--build", d + "/b"], p["emu"] + [d + "/b/cprog"]) + (() if p["target"] else ([d + "/b/cxxprog"],)):
        rc, out = ran(cmd)
        if rc: raise Broken("%s: a project that finds the installed package fails: %s" % (name, err_line(out)), cmd)

def relocated(name, p, top):
    """The installed package still works elsewhere."""
    q = os.path.join(top, "moved-" + name)
    shutil.copytree(p["prefix"], q, symlinks=True)
    hide = p["prefix"] + ".away"
    os.rename(p["prefix"], hide)
    try: package(name + "-moved", dict(p, prefix=q), top)
    finally: os.rename(hide, p["prefix"])

def subdirectory(name, p, top):
    """A project that has the library in a directory of its own tree."""
    d = os.path.join(top, "sub-" + name); os.makedirs(d)
    copy_repo(d + "/deps/base64")
    open(d + "/CMakeLists.txt", "w").write("""cmake_minimum_required(VERSION 3.10)
project(consumer VERSION 7.8.9 LANGUAGES C)
add_subdirectory(deps/base64)
add_executable(cprog %(s)s/main.c %(s)s/other.c)
target_link_libraries(cprog PRIVATE base64)
""" % dict(s=SRC))
    for shared in ("OFF", "ON"):
        b = d + "/b" + shared
        for cmd in (["cmake", "-S", d, "-B", b, "-DBASE64_WERROR=OFF", "-DBUILD_SHARED_LIBS=" + shared] + p["cmake"], ["cmake", "--build", b], None):
            if cmd is None:
                cmd = [os.path.join(w, f) for w, _, fs in os.walk(b) for f in fs if f == "cprog"][:1]
                if not cmd: raise Broken("%s: a project with the library in a subdirectory: the program is not made" % name, ["cmake", "--build", b])
            rc, out = ran(cmd)
            if rc: raise Broken("%s: a project with the library in a subdirectory (shared: %s) fails: %s" % (name, shared, err_line(out)), cmd)

def c23(prop="C23"):
    c = Check(prop)
    top = os.path.join(BUILD, "consumer-%d" % os.getpid())
    for f in os.listdir(BUILD):
        q = os.path.join(BUILD, f)
        if f.startswith("consumer-") and time.time() - os.path.getmtime(q) > 3600: shutil.rmtree(q, ignore_errors=True)
    os.makedirs(top)
    try:
        kinds = [("make", []), ("make", X86), ("make-openmp", X86), ("cmake", X86), ("cmake-shared", X86), ("cmake-shared", [])]
        if c.thorough: kinds += [("make", [x]) for x in X86] + [("cmake", []), ("make-openmp", [])] + [("cmake-shared", [x]) for x in X86]
        arm = dict(aarch64=["neon64"], armhf=["neon32"], s390x=[], i686=X86)
        kinds += [("%s@%s" % (k, t), arm[t]) for t in TARGETS for k in ("make", "cmake-shared")]
        if c.thorough: kinds += [("%s@%s" % (k, t), h) for t in TARGETS for k, h in (("cmake", arm[t]), ("make", []), ("cmake-shared", []), ("make-openmp", arm[t])) if (k, h) not in (("make", arm[t]), ("cmake-shared", arm[t])) and (k, t) != ("make-openmp", "i686")]  # (no shared libgomp for i686 here)
        def mk(t):
            try: return t, product(top, *t), None
            except CheckError as e: return t, None, str(e)
        prods = list(c.pool.map(mk, kinds))
        langs = [(cc, s, d) for cc in ("gcc", "clang") for s in ("c99", "gnu99", "c11", "c17", "c2x", "c++98", "c++11", "c++14", "c++17", "c++20", "gnu++17") for d in ([], ["-DBASE64_STATIC_DEFINE"])]
        works = {re.split("[-@]", k)[0] for (k, h), p, why in prods if p}
        broken, todo, late = [], [], []
        for (k, h), p, why in prods:
            if p is None:
                if re.split("[-@]", k)[0] not in works: raise CheckError(why)
                broken.append(Broken("%s with %s does not build" % (k, subset_name(h)), [sys.executable, os.path.join(VERIF, "check"), c.prop])); continue
            name = "%s with %s" % (k, subset_name(h)); fn = name.replace(" ", "-").replace("+", "-").replace("@", "-")
            p["name"] = name
            def sym(p=p, name=name):
                s = symbols(p)
                if s is None: return 0
                miss, extra = [x for x in API if x not in s], [x for x in s if x not in API and not x.startswith("_")]
                if miss: raise Broken("%s: %s is not exported" % (name, miss[0]), ["nm", "-g", p.get("obj") or p["so"]])
                if extra: raise Broken("%s: %s is exported" % (name, extra[0]), ["nm", "-g", p.get("obj") or p["so"]])
                return 1
            todo += [sym, lambda p=p, fn=fn: readme(fn, p, top), lambda p=p, name=name: utility(name, p)]
            mine = langs if not p["target"] else [("gcc", s, []) for s in ("c99", "c2x")] + [("gcc", "c11", ["-DBASE64_STATIC_DEFINE"]), ("clang", "c17", []), ("clang", "c++98", []), ("clang", "c++20", ["-DBASE64_STATIC_DEFINE"])]
            for i in range(0, len(mine), 4):
                ls = [l for l in mine[i:i + 4] if not (k.startswith("cmake-shared") and l[2])]
                todo.append(lambda p=p, fn=fn, ls=ls: consume(c, fn, p, top, ls))
            if p["prefix"]: late.append(lambda p=p, fn=fn: [package(fn, p, top), relocated(fn, p, top)])
            if k == "cmake": todo.append(lambda p=p, fn=fn: subdirectory(fn, p, top))
        def go(f):
            try: return f() or 1
            except Broken as e: broken.append(e); return 0
        n = sum(c.pool.map(go, todo))
        # these move the product, so nobody else may be using it
        def go2(f):
            try: f(); return 2
            except Broken as e: broken.append(e); return 0
        n += sum(c.pool.map(go2, late))
        c.cov["programs"] = n
        c.sample("programs with %s" % ", ".join(p["name"] for _, p, _ in prods if p))
        for e in broken[:3]:
            # the products are gone by then: the check itself is what can be run again
            c.violation(str(e), dict(cmd=[sys.executable, os.path.join(VERIF, "check"), c.prop], label=" ".join(map(str, e.cmd))))
    finally:
        shutil.rmtree(top, ignore_errors=True)
    c.assumptions += ["x86-64 with gcc and clang; i686, aarch64, armhf and s390x with make and the shared library of CMake, gcc and clang, C and C++ (without its library)"] + ["names that begin with an underscore may be exported"]
    return c

CHECKS = {"C23": c23}
