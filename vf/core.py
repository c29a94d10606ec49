"""Shared machinery: building /repo's current tree in variants, running the
harness processes, replaying and reporting violations, writing evidence."""
import concurrent.futures as cf, hashlib, json, os, re, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
HARN = os.path.join(VERIF, "harness")
NCPU = os.cpu_count() or 4
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")

class CheckError(Exception):
    pass

# ---------------------------------------------------------------- building
SIMD_FLAGS = dict(ssse3=["-mssse3"], sse41=["-msse4.1"], sse42=["-msse4.2"], avx=["-mavx"], avx2=["-mavx2"],
                  avx512=["-mavx512vl", "-mavx512vbmi"])
X86 = ["ssse3", "sse41", "sse42", "avx", "avx2", "avx512"]
BASE = ["-std=c99", "-O3", "-DNDEBUG", "-DBASE64_STATIC_DEFINE", "-w"]

def lib_sources():
    """The library's C files, as CMakeLists.txt lists them."""
    s = open(os.path.join(REPO, "CMakeLists.txt")).read()
    m = re.search(r"add_library\(base64\b(.*?)\)", s, re.S)
    body = re.sub(r"#.*", "", m.group(1)) if m else ""
    src = [w for w in body.split() if w.endswith(".c")]
    if not src:
        src = ["lib/lib.c", "lib/codec_choose.c", "lib/tables/tables.c"] + \
              ["lib/arch/%s/codec.c" % a for a in ["generic"] + X86 + ["neon32", "neon64"]]
    return src

def config_h(have):
    """config.h from the repository's own template."""
    f = os.path.join(REPO, "cmake", "config.h.in")
    have = {h.upper() for h in have}
    def one(m):
        n = m.group(1)
        return "#define %s %d" % (n, 1 if n.replace("BASE64_WITH_", "") in have else 0)
    return re.sub(r"^#cmakedefine01\s+(\w+)", one, open(f).read(), flags=re.M)

_tree = {}
def tree_hash(*subdirs):
    k = (REPO,) + subdirs
    if k not in _tree:
        h = hashlib.sha256()
        for d in subdirs:
            p = os.path.join(REPO, d)
            if os.path.isfile(p):
                h.update(d.encode() + open(p, "rb").read()); continue
            for r, ds, fs in sorted(os.walk(p)):
                ds.sort()
                for f in sorted(fs):
                    if f.endswith((".c", ".h", ".txt", ".py", ".in")) or f == "Makefile":
                        q = os.path.join(r, f)
                        h.update(q.encode() + b"\0" + open(q, "rb").read())
        _tree[k] = h.hexdigest()
    return _tree[k]

def run(cmd, **kw):
    kw.setdefault("stdout", subprocess.PIPE); kw.setdefault("stderr", subprocess.STDOUT)
    kw.setdefault("stdin", subprocess.DEVNULL)
    timeout = kw.pop("timeout", None)
    with subprocess.Popen(cmd, text=True, errors="replace", start_new_session=True, **kw) as p:
        try: out, err = p.communicate(timeout=timeout)
        except BaseException:
            os.killpg(p.pid, signal.SIGKILL); p.wait(); raise
    return subprocess.CompletedProcess(cmd, p.returncode, out, err)

def must(cmd, what, **kw):
    r = run(cmd, **kw)
    if r.returncode:
        raise CheckError("%s failed: %s\n%s" % (what, " ".join(map(str, cmd)), r.stdout[-3000:]))
    return r.stdout

class Variant:
    def __init__(self, name, cc, have, codecs, cflags=(), runner=(), emu=0, openmp=False, wrap=None, optional=False,
                 base=None, ldflags=("-static",), post=None, note=""):
        self.name, self.cc, self.have, self.codecs = name, cc, list(have), list(codecs)
        self.cflags, self.runner, self.emu, self.openmp = list(cflags), list(runner), emu, openmp
        self.wrap, self.optional, self.base, self.ldflags = wrap or {}, optional, list(base or BASE), list(ldflags)
        self.post, self.note = post, note

    def dir(self):
        h = hashlib.sha256(repr((tree_hash("lib", "include", "bin", "CMakeLists.txt", "cmake"), self.name, self.cc, self.have, self.cflags,
                                 self.wrap, self.base, self.post, REPO)).encode()).hexdigest()[:16]
        return os.path.join(BUILD, "%s-%s" % (self.name, h))

    def compile_cmds(self, d):
        out = []
        for s in lib_sources():
            m = re.match(r"lib/arch/(\w+)/", s)
            arch = m.group(1) if m else None
            fl = []
            if arch in SIMD_FLAGS and arch in self.have:
                fl = SIMD_FLAGS[arch]
            if arch == "neon32" and "neon32" in self.have:
                fl = ["-mfpu=neon"]
            src = os.path.join(REPO, s)
            if arch in self.wrap:
                w = os.path.join(d, "wrap_%s.c" % arch)
                open(w, "w").write(self.wrap[arch].replace("@SRC@", src))
                fl = fl + ["-I", os.path.dirname(src)]
                src = w
            o = os.path.join(d, s.replace("/", "_")[:-2] + ".o")
            cmd = [self.cc] + self.base + self.cflags + fl + ["-I", d, "-I", os.path.join(REPO, "include"), "-c", src, "-o", o]
            if self.openmp: cmd.insert(1, "-fopenmp")
            out.append((cmd, o))
        return out

    def build(self, pool):
        d = self.dir()
        if os.path.exists(os.path.join(d, ".ok")):
            return d
        tmp = d + ".tmp%d" % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
        open(os.path.join(tmp, "config.h"), "w").write(config_h(self.have))
        cmds = self.compile_cmds(tmp)
        rs = list(pool.map(lambda c: run(c[0]), cmds))
        for (c, o), r in zip(cmds, rs):
            if r.returncode:
                shutil.rmtree(tmp, ignore_errors=True)
                raise CheckError("variant %s does not compile: %s\n%s" % (self.name, " ".join(c), r.stdout[-3000:]))
            if self.post: self.post(o)
        open(os.path.join(tmp, ".ok"), "w").close()
        shutil.rmtree(d, ignore_errors=True)
        os.rename(tmp, d)
        return d

    def objs(self):
        d = self.dir()
        return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".o"))

def neon_noasm(extra):
    return "".join("#include <%s>\n" % h for h in ("stdint.h", "stddef.h", "string.h", "stdio.h", "arm_neon.h")) + \
        "#undef __GNUC__\n#undef __clang__\n" + extra + "#include \"@SRC@\"\n"

NOASM = ["-DBASE64_%s_USE_ASM=0" % c.upper() for c in X86]
def variants():
    P = ["plain"]
    A64, A32, S390 = "/usr/bin/aarch64-linux-gnu-gcc", "/usr/bin/arm-linux-gnueabihf-gcc", "/usr/bin/s390x-linux-gnu-gcc"
    v = [
        Variant("gcc", "gcc", X86, P + X86),
        Variant("gcc-noasm", "gcc", X86, P + X86, NOASM),
        Variant("clang", "clang", X86, P + X86),
        Variant("clang-noasm", "clang", X86, P + X86, NOASM),
        Variant("gcc-O1", "gcc", X86, P + X86, base=[b if b != "-O3" else "-O1" for b in BASE]),
        Variant("clang-O0", "clang", X86, P + X86, base=[b if b != "-O3" else "-O0" for b in BASE]),
        Variant("plainonly", "gcc", [], P),
        Variant("openmp", "gcc", X86, P + X86, openmp=True, ldflags=("-static", "-fopenmp")),
        Variant("i686", "/usr/bin/i686-linux-gnu-gcc", X86, P + X86),
        Variant("aarch64", A64, ["neon64"], P + ["neon64"], runner=["/usr/bin/qemu-aarch64"], emu=1),
        Variant("aarch64-noasm", A64, ["neon64"], P + ["neon64"], runner=["/usr/bin/qemu-aarch64"], emu=1, wrap={"neon64": neon_noasm("")}, optional=True),
        Variant("armhf", A32, ["neon32"], P + ["neon32"], ["-mfpu=neon"], runner=["/usr/bin/qemu-arm"], emu=1),
        Variant("armhf-noasm", A32, ["neon32"], P + ["neon32"], ["-mfpu=neon"], runner=["/usr/bin/qemu-arm"], emu=1, wrap={"neon32": neon_noasm("")}, optional=True),
        Variant("s390x", S390, [], P, runner=["/usr/bin/qemu-s390x"], emu=1),
    ]
    return {x.name: x for x in v}

CPU_NEEDS = dict(ssse3=["ssse3"], sse41=["sse4_1"], sse42=["sse4_2"], avx=["avx"], avx2=["avx2"], avx512=["avx512vl", "avx512vbmi"])
_cpu = None
def cpu_has(codec):
    """Whether this machine can execute the codec (x86 only)."""
    global _cpu
    if _cpu is None:
        m = re.search(r"^flags\s*:(.*)$", open("/proc/cpuinfo").read(), re.M)
        _cpu = set(m.group(1).split()) if m else set()
    return all(f in _cpu for f in CPU_NEEDS.get(codec, []))

# ---------------------------------------------------------------- the run
class Check:
    last = None
    def __init__(self, prop, level="model_checking"):
        Check.last = self
        self.prop, self.level, self.t0 = prop, level, time.time()
        self.pool = cf.ThreadPoolExecutor(NCPU)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.notes, self.assumptions, self.viol = [], [], []
        os.makedirs(BUILD, exist_ok=True)
        self.rdir = os.path.join(VERIF, "replays")
        self.thorough = TIER == "thorough"

    def add(self, states=0, transitions=0, validated=0):
        self.cov["states"] += states; self.cov["transitions"] += transitions
        self.cov["traces_validated_against_impl"] += validated

    def sample(self, s):
        if len(self.cov["samples"]) < 12: self.cov["samples"].append(s)

    def build(self, names, allv=None):
        """Builds the variants; returns those that could be built."""
        allv = allv or variants()
        got = {}
        bp = cf.ThreadPoolExecutor(max(2, NCPU // 2))
        def one(n):
            try:
                allv[n].build(self.pool); return n, None
            except CheckError as e:
                return n, e
        for n, e in bp.map(one, names):
            if e is None: got[n] = allv[n]
            elif allv[n].optional: self.notes.append("variant %s left out: %s" % (n, str(e)[:300]))
            else: raise e
        return got

    def link(self, v, harness, out, extra=(), cflags=()):
        """Links a harness (C file in harness/) with a built variant."""
        d = v.dir()
        src = os.path.join(HARN, harness)
        h = hashlib.sha256()
        for f in sorted(os.listdir(HARN)): h.update(open(os.path.join(HARN, f), "rb").read())
        exe = os.path.join(d, out + "-" + h.hexdigest()[:12])
        if not os.path.exists(exe):
            tmp = "%s.tmp%d" % (exe, os.getpid())
            must([v.cc, "-O2", "-g", "-w", "-DBASE64_STATIC_DEFINE", "-I", os.path.join(REPO, "include"), "-I", HARN] + list(cflags) +
                 [src] + v.objs() + list(extra) + ["-o", tmp] + v.ldflags, "linking %s for %s" % (harness, v.name))
            os.rename(tmp, exe)
        return exe

    # jobs ------------------------------------------------------------
    def violation(self, msg, replay):
        """replay: a dict; 'cmd' and what is needed to run it again."""
        os.makedirs(self.rdir, exist_ok=True)
        replay = dict(replay, property=self.prop, message=msg)
        name = "%s-%s.json" % (self.prop, hashlib.sha256(json.dumps(replay, sort_keys=True, default=str).encode()).hexdigest()[:10])
        p = os.path.join(self.rdir, name)
        with open(p, "w") as f: json.dump(replay, f, indent=1, default=str)
        known = self.known_match(replay)
        if known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, known), flush=True)
            return
        self.viol.append((msg, p))
        print("%s: %s" % (self.prop, msg), flush=True)
        print("VIOLATION property=%s replay=%s" % (self.prop, p), flush=True)

    def known_match(self, replay):
        return None

    def jobs(self, jobs, timeout=800, stop_first=True):
        """jobs: list of dicts: cmd (list), label, replay (function scenario -> cmd), env.
        Each prints STAT, SAMPLE, VIOL, DONE lines."""
        stop = []
        def one(j):
            if stop and stop_first: return j, None, ""
            t1 = time.time()
            env = dict(os.environ, **j.get("env", {}))
            try:
                p = subprocess.Popen(j["cmd"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, text=True,
                                     errors="replace", env=env, cwd=j.get("cwd"), start_new_session=True)
                try: out, _ = p.communicate(timeout=timeout)
                except subprocess.TimeoutExpired:
                    os.killpg(p.pid, signal.SIGKILL); out, _ = p.communicate(); return j, "timeout", out
            except OSError as e:
                return j, "error", str(e)
            if "\nVIOL " in "\n" + out and not j.get("attempts"): stop.append(1)
            if os.environ.get("VERIF_VERBOSE"): print("  %6.1fs %s rc=%s" % (time.time() - t1, j["label"], p.returncode), flush=True)
            return j, p.returncode, out
        t, errors = {}, []
        for f in cf.as_completed([self.pool.submit(one, j) for j in jobs]):
            j, rc, out = f.result()
            if rc is None: continue
            try: self.take(j, rc, out, t, timeout)
            except CheckError as e: errors.append(e)
        self.tally(t)
        # what was confirmed counts; otherwise a job without an answer leaves the check without one
        if errors and not self.viol: raise errors[0]
        return t

    def tally(self, t):
        self.cov["states"] += t.pop("states", 0)
        self.cov["transitions"] += t.pop("transitions", 0)
        self.cov["traces_validated_against_impl"] += t.pop("impl_calls", 0)
        for k, n in t.items(): self.cov[k] = self.cov.get(k, 0) + n

    def take(self, j, rc, out, t, timeout):
        """Takes in what a job has printed."""
        for l in out.splitlines():
            if l.startswith("STAT "):
                _, k, n = l.split()
                t[k] = t.get(k, 0) + int(n)
            elif l.startswith("SAMPLE "):
                self.sample("%s: %s" % (j["label"], l[7:]))
        v = [l[5:] for l in out.splitlines() if l.startswith("VIOL ")]
        if v:
            scn, _, msg = v[0].partition("\t")
            m = re.search(r"runtime error: [^\n]*|(Address|Memory)Sanitizer: [^\n]*", out)
            if m: msg += ": " + m.group(0)[:200]
            self.confirm(j, scn, msg)
        elif rc in (-signal.SIGSEGV, -signal.SIGILL, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGFPE) or (isinstance(rc, int) and rc in (139, 132, 134)):
            r = run(j["cmd"], env=dict(os.environ, **j.get("env", {})), timeout=timeout)
            if r.returncode == rc: self.violation("%s: the process dies with status %s" % (j["label"], rc), dict(cmd=j["cmd"], label=j["label"]))
            else: raise CheckError("%s: died with %s, not reproduced\n%s" % (j["label"], rc, out[-2000:]))
        elif rc != 0 or "DONE" not in out:
            raise CheckError("%s: ended with %s\n%s\n%s" % (j["label"], rc, " ".join(j["cmd"]), out[-2000:]))
        else:
            self.cov.setdefault("completed_jobs", []).append(j["label"])

    def confirm(self, j, scn, msg):
        """Replays a reported scenario in a fresh process, twice."""
        cmd = j["replay"](scn)
        env = dict(os.environ, **j.get("env", {}))
        got = []
        # a scenario on a real thread runtime need not fail every time
        for i in range(j.get("attempts", 2)):
            if got.count(True) == 2: break
            try: r = run(cmd, env=env, timeout=300, cwd=j.get("cwd")); got.append("\nVIOL " in "\n" + r.stdout or r.returncode not in (0, 3))
            except subprocess.TimeoutExpired: got.append(True)
        if got.count(True) < 2:
            raise CheckError("%s: reported '%s' (%s), but it does not replay" % (j["label"], msg, scn))
        self.violation("%s: %s [%s]" % (j["label"], msg, scn), dict(cmd=cmd, label=j["label"], scenario=scn, env=j.get("env", {})))

    def finish(self):
        # without a state graph, the inputs enumerated are the states
        if not self.cov["states"]: self.cov["states"] = self.cov["transitions"] or self.cov["traces_validated_against_impl"]
        self.cov["exhaustive"] = not self.cov.get("capped")
        if self.notes: self.cov["notes"] = self.notes
        ev = dict(property=self.prop, tier="thorough" if self.thorough else "quick", seed=SEED, level=self.level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.viol))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
        print("%s: %s in %.1f s: %d states, %d transitions, %d calls on the implementation" % (self.prop, "VIOLATED" if self.viol else "held",
              time.time() - self.t0, self.cov["states"], self.cov["transitions"], self.cov["traces_validated_against_impl"]))
        return 1 if self.viol else 0
