"""C17: the table generators, the committed tables and what the codecs make of them."""
import glob, itertools
from .core import *
from .core import Variant

def sections(c, cc, src, inc, what):
    """The data of tables.c as the compiler sees it: symbol -> bytes."""
    d = os.path.join(BUILD, "tabs-%d-%s" % (os.getpid(), hashlib.sha256((cc + src).encode()).hexdigest()[:10]))
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    o = d + "/t.o"
    must([cc, "-std=c99", "-O2", "-w", "-fdata-sections", "-fno-merge-constants", "-I", inc, "-I", os.path.join(REPO, "include"), "-c", src, "-o", o], "compiling the tables (%s)" % what)
    pre = os.path.basename(cc)[:-3] if "-linux-" in cc else ""
    nm = must([("/usr/bin/" + pre if pre else "") + "nm", "-S", o], "nm")
    r = {}
    for l in nm.splitlines():
        f = l.split()
        if len(f) == 4 and f[2] in "RrDd": r[f[3]] = int(f[1], 16)
    out = {}
    for sym, n in r.items():
        b = d + "/" + sym
        must([("/usr/bin/" + pre if pre else "") + "objcopy", "-O", "binary", "--only-section=*." + sym, o, b], "objcopy")
        data = open(b, "rb").read() if os.path.exists(b) else b""
        out[sym] = data[:n]
    shutil.rmtree(d, ignore_errors=True)
    return out

def regen(c, how):
    """A copy of the tree with its tables made anew."""
    d = os.path.join(BUILD, "regen-%s-%d" % (how, os.getpid()))
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(REPO, d, ignore=shutil.ignore_patterns(".git", "build*", "*.o", "test", "benchmark", ".github"), symlinks=True)
    t = os.path.join(d, "lib", "tables")
    if os.path.exists(os.path.join(t, "table_generator")): os.unlink(os.path.join(t, "table_generator"))
    old = time.time() - 1e6
    for f in glob.glob(t + "/*"): os.utime(f, (old, old))
    if how == "make":
        must(["make", "-C", t, "-B"], "regenerating the tables with lib/tables/Makefile")
    else:
        b = os.path.join(d, "cm")
        must(["cmake", "-S", d, "-B", b, "-DBASE64_REGENERATE_TABLES=ON", "-DBASE64_BUILD_TESTS=OFF", "-DBASE64_BUILD_CLI=OFF", "-DCMAKE_BUILD_TYPE=Release"], "cmake with BASE64_REGENERATE_TABLES")
        must(["cmake", "--build", b, "--target", "base64"], "building with BASE64_REGENERATE_TABLES")
    new = [f for f in glob.glob(t + "/*.h") if os.stat(f).st_mtime > old + 1000]
    return d, new

ALPHA = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"

def alphabets(c):
    """The generator with replacements for '+', '/' and '=': every ordered choice of three from EXTRA. Its tables have to be the
    committed ones with the characters exchanged. Anything but three characters is refused."""
    EXTRA = "-._+/=~!" if TIER == "quick" else "-._+/=~!#$%&*:;?@^|,"
    d = os.path.join(BUILD, "alpha-%d" % os.getpid())
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    try:
        gen = d + "/gen"
        must(["gcc", "-O1", "-w", "-o", gen, os.path.join(REPO, "lib/tables/table_generator.c")], "building the table generator")
        for k in (0, 1, 2, 4, 5, 8):
            r = run([gen, "-" * k], timeout=20)
            if r.returncode == 0:
                msg = "the table generator accepts %d replacement characters" % k
                c.violation(msg, dict(cmd=[sys.executable, os.path.join(VERIF, "check"), "C17"], label=msg)); return
        tri = list(itertools.permutations(EXTRA, 3))
        def one(chunk):
            part, le = chunk
            f = "%s/m%d-%d.c" % (d, part[0], le)
            with open(f, "w") as o:
                o.write("#include <stdint.h>\n#include <stdio.h>\n#include <string.h>\n#define BASE64_LITTLE_ENDIAN %d\n" % le)
                def inc(tag, text):
                    for i in range(4): o.write("#define base64_table_dec_32bit_d%d %s_d%d\n" % (i, tag, i))
                    o.write("#undef CHAR62\n#undef CHAR63\n#undef CHARPAD\n" + text)
                    for i in range(4): o.write("#undef base64_table_dec_32bit_d%d\n" % i)
                inc("std", open(os.path.join(REPO, "lib/tables/table_dec_32bit.h")).read())
                for k in range(*part):
                    g = run([gen, "".join(tri[k])], timeout=20, stderr=subprocess.DEVNULL)
                    if g.returncode: raise CheckError("the table generator fails for %s" % (tri[k],))
                    inc("t%d" % k, g.stdout)
                    o.write("static const unsigned char c%d[3] = {\n#ifdef CHAR62\nCHAR62, CHAR63, CHARPAD\n#else\n%s\n#endif\n};\n" % (k, ", ".join(str(ord(x)) for x in tri[k])))
                o.write("static int bad(int k, const uint32_t *a, const uint32_t *std, const char *al, int d) { int v[256]; memset(v, -1, sizeof v);"
                        "for (int i = 0; i < 64; i++) v[(unsigned char) al[i]] = i;"
                        "for (int i = 0; i < 256; i++) { uint32_t w = v[i] < 0 ? std[0] : std[(unsigned char) \"%s\"[v[i]]]; if (a[i] != w) { printf(\"BAD %%d the entry of 0x%%02x in table d%%d is 0x%%08x, not 0x%%08x\\n\", k, i, d, a[i], w); return 1; } } return 0; }\n" % ALPHA)
                o.write("int main(void) { int r = 0;\n")
                for k in range(*part):
                    al = ALPHA[:62] + "".join(tri[k][:2])
                    for i in range(4): o.write('r |= bad(%d, t%d_d%d, std_d%d, "%s", %d);\n' % (k, k, i, i, al, i))
                    o.write('if (memcmp(c%d, "%s", 3)) { printf("BAD %d the characters are wrong\\n"); r = 1; }\n' % (k, "".join(tri[k]), k))
                o.write("return r; }\n")
            must(["gcc", "-O0", "-w", "-std=gnu99", f, "-o", f[:-2]], "compiling the tables of other alphabets")
            r = run([f[:-2]], timeout=60)
            os.unlink(f); os.unlink(f[:-2])
            return le, r.stdout
        step = 84
        todo = [((a, min(a + step, len(tri))), le) for a in range(0, len(tri), step) for le in (1, 0)]
        for le, out in c.pool.map(one, todo):
            m = re.search(r"^BAD (\d+) (.*)", out, re.M)
            if m:
                msg = "table generator with \"%s\" as replacements (%s-endian): %s" % ("".join(tri[int(m[1])]), "little" if le else "big", m[2])
                c.violation(msg, dict(cmd=[sys.executable, os.path.join(VERIF, "check"), "C17"], label=msg)); return
        c.add(states=2 * len(tri) * 1024, transitions=2 * len(tri), validated=2 * len(tri))
        c.cov["alphabets_generated"] = len(tri)
    finally: shutil.rmtree(d, ignore_errors=True)

def check_tables():
    c = Check("C17")
    S390 = "/usr/bin/s390x-linux-gnu-gcc"
    vs = c.build(["plainonly", "i686", "s390x"])
    dirs = {}
    jobs = []
    try:
        for how in ("make", "cmake"):
            try: d, new = regen(c, how)
            except CheckError as e:
                if how == "cmake": c.notes.append("the cmake build with regenerated tables was not possible: %s" % str(e)[:200]); continue
                raise
            dirs[how] = d
            if len(new) < 2: raise CheckError("%s regenerated only %s" % (how, new))
        n = 0
        for how, d in dirs.items():
            for cc in ("gcc", "/usr/bin/i686-linux-gnu-gcc", S390):
                inc = vs["s390x" if cc == S390 else "plainonly"].dir()
                a = sections(c, cc, os.path.join(REPO, "lib/tables/tables.c"), inc, "committed")
                b = sections(c, cc, os.path.join(d, "lib/tables/tables.c"), inc, "regenerated")
                for sym in sorted(set(a) | set(b)):
                    x, y = a.get(sym), b.get(sym)
                    n += len(x or b"")
                    if x != y:
                        at = next((i for i in range(min(len(x or b""), len(y or b""))) if x[i] != y[i]), "the end")
                        msg = "%s, regenerated by %s, differs from the committed table at byte %s (compiled by %s)" % (sym, how, at, cc)
                        c.violation(msg, dict(cmd=[sys.executable, os.path.join(VERIF, "check"), "C17"], label=msg))
        c.add(states=n, transitions=n, validated=n)
        c.cov["table_bytes_compared"] = n
        def one(v, d, label):
            exe = os.path.join(BUILD, "tables-%s-%s-%d" % (v.name, label, os.getpid()))
            src = [os.path.join(d, s) for s in lib_sources()]
            must([v.cc] + v.base + v.cflags + ["-I", v.dir(), "-I", HARN, "-I", os.path.join(REPO, "include"), os.path.join(HARN, "tables.c")] + src + ["-o", exe, "-static"], "building the codec with %s tables" % label)
            return exe
        todo = [(v, d, l) for v in vs.values() for l, d in [("committed", REPO)] + ([("regenerated", dirs["make"])] if v.name != "i686" else [])]
        # without SIMD
        for v in vs.values():
            if v.name == "i686": v.have, v.base = [], v.base + ["-DVERIF_PLAIN"]; v.build(c.pool)
        for (v, d, l), exe in zip(todo, c.pool.map(lambda t: one(*t), todo)):
            jobs.append(dict(label="%s, %s tables" % (v.name, l), cmd=v.runner + [exe, "explore"], replay=lambda s, exe=exe, v=v: v.runner + [exe, "replay", s], exe=exe))
        if not c.viol: alphabets(c)
        if not c.viol: c.jobs(jobs)
    finally:
        for d in dirs.values(): shutil.rmtree(d, ignore_errors=True)
        if not c.viol:
            for j in jobs:
                if os.path.exists(j["exe"]): os.unlink(j["exe"])
    return c

CHECKS = {"C17": check_tables}
